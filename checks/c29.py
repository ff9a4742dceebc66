"""C29: calls never change their inputs; results depend on the values given, not on containers, memory layout or history."""
import copy
import itertools
import warnings
import haiku as hk
import numpy as np
import xarray
import jax
import jax.numpy as jnp
from jax_cfd.base import advection as ad, array_utils as au, boundaries as B, diffusion, equations as eqs, fast_diagonalization as fdg, finite_differences as fd
from jax_cfd.base import filter_utils, forcings as fo, funcutils as fu, grids as G, initial_conditions as ic, interpolation as ip
from jax_cfd.base import pressure as pr, resize, subgrid_models as sg, time_stepping as ts
from jax_cfd.data import evaluation as ev, visualization as vz, xarray_utils as xu
from jax_cfd.ml import decoders as de, encoders as en, forcings as mf, layers, layers_util as lu, metrics, physics_specifications as mp
from jax_cfd.ml import time_integrators as ti, towers, train_utils as tu
from jax_cfd.spectral import equations as seq, time_stepping as sts, utils as su
from vlib import core, gen
from checks import c19, c24
from checks.c19 import flat, meta

RULE = ('the catalogue of components of C19 and further entry points (array helpers, resampling, filters, learned layers, encoders, '
        'decoders, metrics, training helpers, data sets, constructors) are executed with JAX arrays, with numpy arrays (writable, '
        'read-only, Fortran ordered, reversed and strided views), twice, after other components, and with rebuilt objects; results are '
        'compared, and inputs are compared with a snapshot taken before; distinct by component, container and configuration')
ASSUMPTIONS = ['float64 values', 'arrays are not modified by the caller while a call is running']

MODES = ['numpy', 'read-only', 'fortran', 'reversed', 'strided', 'mixed']


def leaf(x, mode, k=0):
  """The same values in another container."""
  a = np.array(x)  # a writable copy
  if mode == 'mixed': mode = (['jax'] + MODES[:5])[k % 6]
  if mode == 'jax': return jnp.asarray(a)
  if mode == 'fortran' and a.ndim > 1: a = np.array(a, order='F')
  elif mode == 'reversed' and a.ndim: a = np.array(np.flip(a), order='C')[(slice(None, None, -1),) * a.ndim]
  elif mode == 'strided' and a.ndim:
    b = np.full(tuple(2 * s for s in a.shape), 7, a.dtype); b[(slice(None, None, 2),) * a.ndim] = a; a = b[(slice(None, None, 2),) * a.ndim]
  if mode == 'read-only': a.flags.writeable = False
  return a


def isarr(x): return hasattr(x, 'shape') and hasattr(x, 'dtype')


def recast(t, mode, rng):
  ks = itertools.count(int(rng.integers(6)))
  return jax.tree_util.tree_map(lambda x: leaf(x, mode, next(ks)) if isarr(x) else x, t)


def freeze(t):
  """Everything observable about an input."""
  ls, st = jax.tree_util.tree_flatten(t)
  return ([(id(x), type(x), np.asarray(x).dtype, np.asarray(x).shape, np.asarray(x).strides if isinstance(x, np.ndarray) else None, np.array(x).tobytes()) for x in ls],
          repr(st), repr([tuple(str(y) for y in m) for m in meta(t)]))


def unchanged(rec, before, t, det):
  after = freeze(t)
  for a, b in zip(before[0], after[0]):
    rec.ok('inputs are unchanged bit for bit', a == b, lambda: f'{det}: an input of shape {a[3]} was {np.frombuffer(a[5], a[2])[:6]}..., is now {np.frombuffer(b[5], b[2])[:6]}...')
  rec.ok('containers and metadata of inputs are unchanged', before[1:] == after[1:], lambda: f'{det}: {before[1:]} became {after[1:]}')


def equal(rec, mon, got, want, det, tol=1e-11, metadata=True):
  if metadata:
    a, b = meta(got), meta(want)
    rec.ok('same locations, grids and boundary conditions', len(a) == len(b) and all(
        p[0] == q[0] and p[1:3] == q[1:3] and (p[0] != 'variable' or (p[3] == q[3] and p[4] == q[4])) for p, q in zip(a, b)),
           lambda: f'{det}: {mon}: {a} expected {b}')
  x, y = flat(got), flat(want)
  rec.eq(mon, len(x), len(y), f'{det}: number of results')
  for p, q in zip(x, y):
    rec.eq('same data types', str(p.dtype), str(q.dtype), f'{det}: {mon}')
    if q.dtype.kind in 'fc': rec.close(mon, p, q, tol=tol, scale=(np.abs(q[np.isfinite(q)]).max() if np.isfinite(q).any() else 0) + 1e-12 if q.size else 1, detail=det)
    else: rec.ok(mon, np.array_equal(p, q), lambda: f'{det}: {p} expected {q}')


def battery(rec, rng, name, det, fn, x, tol=1e-11):
  """One component under every container."""
  before = freeze(x)
  want = fn(*x)
  snap = [np.array(a) for a in flat(want)]
  unchanged(rec, before, x, f'{det} JAX arrays')
  modes = [MODES[k] for k in rng.permutation(len(MODES))[:3]]
  for mode in modes:
    y = recast(x, mode, rng)
    before = freeze(y)
    got = fn(*y)
    equal(rec, 'numpy inputs give the result of JAX inputs', got, want, f'{det} {mode}', tol)
    unchanged(rec, before, y, f'{det} {mode}')
    rec.events[f'executed with {mode} inputs'] += 1
  rec.ok('earlier results are not changed by later calls', all(np.array_equal(a, b, equal_nan=b.dtype.kind in 'fc') for a, b in zip(flat(want), snap)), det)
  return want


# ------------------------------------------------------------------ catalogue
def suite_catalogue(rng, rec, i):
  name, c, det = c19.draw(rng, rec, i, 'containers')
  x = c.sample(rng)
  battery(rec, rng, name, det, c.fn, x, max(c.tol, 1e-11))


def suite_compiled(rng, rec, i):
  """Compiled calls do not give away or overwrite their operands."""
  name, c, det = c19.draw(rng, rec, i, 'compiled')
  x = c.sample(rng); f = jax.jit(c.fn)
  before = freeze(x); want = f(*x); jax.block_until_ready(want)
  unchanged(rec, before, x, det + ' compiled')
  y = recast(x, gen.pick(rng, MODES), rng); before = freeze(y)
  got = f(*y); jax.block_until_ready(got)
  equal(rec, 'numpy inputs give the result of JAX inputs', got, want, det + ' compiled', max(c.tol, 1e-11))
  unchanged(rec, before, y, det + ' compiled numpy')
  # the operands may be used again afterwards, in the other mode
  equal(rec, 'inputs remain usable', c.fn(*x), want, det, max(10 * c.tol, 1e-10))


def suite_history(rng, rec, i):
  """A component's answers do not depend on what ran before, nor on which of two equal objects is used."""
  names = c19.NAMES; name = names[i % len(names)]; other = gen.pick(rng, names)
  r2 = copy.deepcopy(rng); pins = dict(gen.PINS['grids'])
  c = c19.CATALOGUE[name](rng); x = c.sample(rng); det = f'{name} {c.det}'
  rec.case('history', name, other, c.det)
  first = c.fn(*x)
  o = c19.CATALOGUE[other](rng); o.fn(*o.sample(rng))
  d = c19.CATALOGUE[name](rng); z = d.sample(rng); zz = d.fn(*z)
  again = c.fn(*x)
  equal(rec, 'a repeated call gives the same result', again, first, f'{det} after {other} and {d.det}', tol=0.)
  gen.PINS['grids'] = pins
  e = c19.CATALOGUE[name](r2); y = e.sample(r2)
  equal(rec, 'equal objects give equal results', e.fn(*y), first, f'{det} rebuilt', tol=0.)
  equal(rec, 'a repeated call gives the same result', d.fn(*z), zz, f'{det} second configuration', tol=0.)
  if i % 3 == 0:
    f, g_ = jax.jit(c.fn), jax.jit(e.fn)
    a = f(*x); b = g_(*y); a2 = f(*x)
    equal(rec, 'a repeated call gives the same result', a2, a, f'{det} compiled', tol=0.)
    equal(rec, 'equal objects give equal results', b, a, f'{det} compiled', tol=0.)


# -------------------------------------------------------------- other entries
def e_arrays(rng):
  nd = int(rng.integers(1, 4)); shp = gen.enlarge(tuple(int(k) for k in rng.choice([2, 4, 6], nd))); ax = int(rng.integers(-nd, nd))
  t = {'a': rng.standard_normal(shp), 'b': (rng.standard_normal(shp + (2,))[..., 0], rng.standard_normal(shp))}
  m = rng.standard_normal((int(rng.integers(4, 7)), 3))
  def fn(t, m):
    a, b = au.split_along_axis(t, 1, ax)
    return {'slice': au.slice_along_axis(t, ax, -1), 'range': au.slice_along_axis(t, ax, slice(None, None, -2)), 'a': a, 'b': b,
            'cat': au.concat_along_axis([b, a], ax), 'split': au.split_axis(t, ax), 'kept': au.split_axis(t, ax, keep_dims=True),
            'block': au.block_reduce(t['a'], (2,) * nd, jnp.max), 'qr': au.gram_schmidt_qr(m), 'un': au.unstack(jnp.asarray(t['a']), ax)}
  return fn, (t, m)


def e_interp(rng):
  n = int(rng.integers(3, 9)); x = np.cumsum(rng.uniform(.1, 1, n)); perm = rng.permutation(n); mode = gen.pick(rng, ['extrapolate', 'constant_extrapolate', .3])
  nd = int(rng.integers(1, 3)); shp = (n, 3)[:nd]
  def fn(x, y, q): return {'sorted': au.interp1d(x, y, axis=0, fill_value=mode)(q), 'unsorted': au.interp1d(x[perm], y[perm], axis=0, fill_value=mode, assume_sorted=False)(q)}
  return fn, (x, rng.standard_normal(shp), rng.uniform(x[0] - 1, x[-1] + 1, (2, 3)))


def e_resample(rng):
  n = int(rng.integers(1, 4)); k = int(gen.pick(rng, [2, 3])); dst_shp = tuple(int(s) for s in rng.integers(2, 5, n))
  g = gen.mild_grid(rng, shp=tuple(k * s for s in dst_shp)); d = G.Grid(dst_shp, domain=g.domain)
  v = tuple(rng.standard_normal(g.shape) for _ in range(n))
  def fn(v):
    o = {'staggered': resize.downsample_staggered_velocity(g, d, v), 'one': resize.downsample_staggered_velocity_component(v[0], 0, k)}
    if n == 2 and k == 2:
      h = jnp.fft.rfftn(jnp.asarray(v[0])); o['spectral'] = resize.downsample_spectral(g, d, np.asarray(h))
    return o
  return fn, (v,)


def e_transforms(rng):
  n = int(gen.pick(rng, [8, 12, 9])); g = gen.mild_grid(rng, shp=(n,)); g2 = gen.mild_grid(rng, shp=gen.pick(rng, [(8, 8), (8, 12)]))
  a = rng.standard_normal(n); h = np.fft.rfft(a); w = np.fft.rfftn(rng.standard_normal(g2.shape)); z = rng.standard_normal(g2.shape)
  def fn(h, w, z):
    o = {'pad': su.padded_irfft(h), 'filter': su.exponential_filter(z, .1, 2), 'velocity': su.vorticity_to_velocity(g2)(w),
         'bands': filter_utils.filter(lambda k: jnp.exp(-.01 * k ** 2), z, g2)}
    if n % 2 == 0: o['cut'] = su.truncated_rfft(su.padded_irfft(h))
    return o
  return fn, (h, w, z)


def e_spectral(rng):
  kind = gen.pick(rng, ['ks', 'ns', 'burgers', 'nls'])
  st = getattr(sts, gen.pick(rng, ['crank_nicolson_rk2', 'crank_nicolson_rk4', 'imex_rk_sil3', 'backward_forward_euler']))
  if kind == 'ns':
    g = gen.mild_grid(rng, shp=(8, 8), lower=False); eq = seq.NavierStokes2D(.01, g, smooth=bool(rng.random() < .5)); h = np.fft.rfftn(rng.standard_normal(g.shape))
  else:
    g = G.Grid((16,), domain=((0., 6.),)); h = np.fft.rfft(rng.standard_normal(16))
    if kind == 'ks': eq = seq.KuramotoSivashinsky(g, smooth=bool(rng.random() < .5))
    elif kind == 'burgers': eq = seq.BurgersEquation(.05, g); h = (h, np.asarray(.3))
    else: eq = seq.NonlinearSchrodinger(g); h = np.fft.fft(rng.standard_normal(16) + 1j * rng.standard_normal(16))
  def fn(h): return {'explicit': eq.explicit_terms(h), 'implicit': eq.implicit_terms(h), 'solve': eq.implicit_solve(h, .01), 'step': st(eq, 1e-3)(h)}
  return fn, (h,)


def e_solvers(rng):
  n = int(rng.integers(1, 4)); shp = gen.pick(rng, [s for s in [(5,), (6, 7), (8, 8), (4, 5, 3)] if len(s) == n]); impl = gen.pick(rng, ['matmul', 'fft', 'rfft'])
  if impl == 'rfft': shp = shp[:-1] + (shp[-1] + shp[-1] % 2,)
  if impl == 'matmul': ops = [(lambda a: a + a.T)(rng.standard_normal((k, k))) for k in shp]
  else: ops = [au.laplacian_matrix(k, .5) for k in shp]
  circ = impl != 'matmul'; herm = True
  def fn(ops, b):
    kw = dict(hermitian=herm, circulant=circ, implementation=impl)
    return {'f': fdg.transform(lambda v: jnp.tanh(v) + 2., ops, b.dtype, **kw)(b), 'pinv': fdg.pseudoinverse(ops, b.dtype, **kw)(b)}
  return fn, (ops, rng.standard_normal(shp))


def e_codecs(rng):
  nd = int(rng.integers(1, 4)); g = gen.mild_grid(rng, nd, shp=gen.pick(rng, [s for s in [(6,), (6, 8), (5, 7), (4, 6, 5)] if len(s) == nd]))
  T = int(rng.integers(1, 4)); ps = mp.NavierStokesPhysicsSpecs(mf.no_forcing, 1., .1); n = int(rng.integers(1, T + 1))
  x = tuple(rng.standard_normal((T,) + g.shape) for _ in range(nd)); z = rng.standard_normal(g.shape + (nd,))
  f = tuple(gen.var(a[-1], o, g, B.periodic_boundary_conditions(nd)) for a, o in zip(x, g.cell_faces))
  A = lambda m, **k: m(g, .1, ps, **k)
  def fn(x, z, f):
    o = {'aligned': A(en.aligned_array_encoder)(x), 'staggered': A(en.collocated_to_staggered_encoder)(x), 'last': A(en.slice_last_state_encoder)(x),
         'some': A(en.slice_last_n_state_encoder, n=n)(x), 'stack': A(en.stack_last_n_state_encoder, n=n)(x), 'split': A(de.channels_split_decoder)(z),
         'arrays': A(de.aligned_array_decoder)(f), 'collocated': A(de.staggered_to_collocated_decoder)(f)}
    if nd == 2: o.update(w=A(en.vorticity_encoder)(x), uvw=A(en.vorticity_velocity_encoder)(x), hat=A(en.spectral_vorticity_encoder)(x))
    return o
  return fn, (x, z, f)


def e_metrics(rng):
  shp = (2, 3, 4, 5); x, y = [tuple(rng.standard_normal(shp) for _ in range(2)) for _ in range(2)]; n = gen.pick(rng, [None, 1, 3]); k = int(rng.integers(-3, 3))
  m = lambda p, o: jnp.sum((p - o) ** 2)
  def fn(x, y):
    return {'l2': metrics.l2_loss_cumulative(x, y, n, 2., 1), 'one': metrics.l2_loss_single_step(x, y, k, 3., 1), 'cor': metrics.correlation_single_step(x, y, k, 1, 0),
            'mean': metrics.local_mean(m, batch_axis=0)(jnp.asarray(x[0]), jnp.asarray(y[0]))}
  return fn, (x, y)


def e_training(rng):
  Bn, T = int(rng.integers(1, 4)), int(rng.integers(1, 4)); tgt = tuple(rng.standard_normal((Bn, T, 4, 3)) for _ in range(2))
  par = {'a': np.asarray(rng.normal()), 'b': rng.standard_normal(3)}; key = np.asarray(jax.random.PRNGKey(int(rng.integers(99)))); n = int(rng.integers(2, 5))
  vals = [{'p': rng.standard_normal((2, 2)), 'q': rng.standard_normal(3)} for _ in range(n)]
  traj = lambda p, x: ('final', tuple(p['a'] * q ** 2 + p['b'] for q in x))
  loss = lambda p, t: sum(jnp.sum((a - b) ** 2) for a, b in zip(p, t))
  lg = tu.loss_and_gradient(traj, loss)
  upd = lambda step, grad, s: {'par': jax.tree.map(lambda p, q: p - 1e-3 * q, s['par'], grad), 'm': s['m'] + 1}
  def fn(par, tgt, key, vals):
    jt = tuple(jnp.asarray(a) for a in tgt)
    return {'lg': lg(par, tgt), 'step': tu.train_step(lg, upd, lambda s: s['par'])((0, {'par': par, 'm': 0}), tgt), 'eval': tu.eval_batch(traj, {'l': loss})(par, tgt),
            'mean': tu.streaming_mean(iter(vals), lambda b: b), 'noise': tu.add_noise_to_input_frame(jt, key, scale=.1),
            'pre': list(tu.preprocess(iter([tgt]), iter([key]), lambda b, r: (b[0] * 2., r)))}
  return fn, (par, tgt, key, vals)


def e_layers(rng):
  nd = int(rng.integers(1, 4)); shp = tuple(int(s) for s in rng.choice([4, 6], nd)); k = tuple(int(s) for s in rng.integers(1, 4, nd)); cin, co = int(rng.integers(1, 3)), int(rng.integers(1, 3))
  kind = gen.pick(rng, ['conv', 'transpose', 'tower'])
  def net(x):
    if kind == 'transpose': return towers.periodic_transpose_convolution(co, k, nd, stride=2)(x)
    if kind == 'tower': return towers.forward_tower_factory(co, nd, num_hidden_layers=1, num_hidden_channels=3)(x)
    return towers.periodic_convolution(co, k, nd, rate=1)(x)
  f = hk.without_apply_rng(hk.transform(net)); x = rng.standard_normal(shp + (cin,))
  p = f.init(jax.random.PRNGKey(0), jnp.asarray(x))
  p = jax.tree.map(lambda a: rng.standard_normal(a.shape), p)
  return f.apply, (p, x)


def e_stencils(rng):
  nd = int(rng.integers(1, 3)); st = [np.array([-1., 0., 1., 2.][:int(rng.integers(2, 5))]) for _ in range(nd)]; h = float(rng.uniform(.3, 2))
  st = [h * s for s in st]; dv = tuple(int(s) for s in rng.integers(0, 2, nd)); n = int(np.prod([s.size for s in st])); x = rng.standard_normal((6, 5)[:nd] + (1,))
  m = lu.Method.FINITE_DIFFERENCE
  def fn(st, q, x):
    st = [np.asarray(s) if isinstance(s, jax.Array) else s for s in st]  # stencils are static
    l = layers.PolynomialConstraint(list(st), dv, m, (h,) * nd) if all(s.size > d + 1 for s, d in zip(st, dv)) else None
    A, b = lu.polynomial_accuracy_constraints(list(st), m, dv, 1, h)
    o = {'A': A, 'b': b, 'coef': lu.polynomial_accuracy_coefficients(list(st), m, dv, 1, h)}
    if l: o['layer'] = l(q[..., :l.subspace_size])
    for k in ('roll', 'conv'): o[k] = lu.extract_patches(x, (2, 3)[:nd], k)
    return o
  return fn, (st, rng.standard_normal((5, n)), x)


def e_trajectory(rng):
  steps, inner = int(rng.integers(1, 4)), int(rng.integers(1, 3)); s = {'u': (rng.standard_normal((3, 2)), rng.standard_normal(2)), 't': np.asarray(0.)}
  step = lambda s: {'u': (s['u'][0] * .9 + s['u'][1], s['u'][1]), 't': s['t'] + 1.}
  def fn(s):
    o = {'rep': fu.repeated(step, steps)(s), 'traj': fu.trajectory(fu.repeated(step, inner), steps, start_with_input=bool(steps % 2))(s)}
    o['scan'] = fu.scan(lambda c, x: (c + x, c * x), s['u'][1], s['u'][0])
    return o
  return fn, (s,)


def e_integrators(rng):
  y = rng.standard_normal((4, 3)); M = rng.standard_normal((3, 3)); dt = .1
  tab = ts.ButcherTableau([[.5], [0., .75]], [2 / 9, 1 / 3, 4 / 9])
  def fn(y, M):
    eq = ts.ExplicitNavierStokesODE(lambda v: v @ M, lambda v: v)
    return {'rk': ts.navier_stokes_rk(tab, eq, dt)(y), 'fe': ts.forward_euler(eq, dt)(y), 'mid': ts.midpoint_rk2(eq, dt)(y), 'rk4': ts.classic_rk4(eq, dt)(y)}
  return fn, (y, M)


ENTRIES = {k[2:]: v for k, v in list(globals().items()) if k.startswith('e_')}
ENAMES = list(ENTRIES)


def suite_entries(rng, rec, i):
  name = ENAMES[i % len(ENAMES)]
  r2 = copy.deepcopy(rng); pins = dict(gen.PINS['grids'])
  fn, x = ENTRIES[name](rng)
  jx = jax.tree_util.tree_map(lambda a: jnp.asarray(a) if isarr(a) else a, x)
  rec.case('entries', name, tuple(np.shape(a) for a in flat(x)))
  want = battery(rec, rng, name, name, fn, jx)
  equal(rec, 'a repeated call gives the same result', fn(*jx), want, name, tol=0., metadata=False)
  gen.PINS['grids'] = pins
  f2, y = ENTRIES[name](r2)
  equal(rec, 'equal objects give equal results', f2(*jax.tree_util.tree_map(lambda a: jnp.asarray(a) if isarr(a) else a, y)), want, name, tol=0., metadata=False)


# ------------------------------------------------------------------ data sets
def dsnap(d):
  c = d.copy(deep=True)
  return c, repr(sorted((k, str(v)) for k, v in d.attrs.items())), [(n, v.dims, v.values.tobytes(), repr(v.attrs)) for n, v in d.variables.items()]


def dsame(rec, before, d, det):
  c, a, vs = before
  rec.ok('data sets are unchanged', d.identical(c) and dsnap(d)[1:] == (a, vs), lambda: f'{det}: was {c}, is now {d}')


def lock(d, mode):
  """The same data set with its arrays in another container."""
  d = d.copy(deep=True)
  for n in list(d.data_vars): d[n] = (d[n].dims, leaf(d[n].values, mode), d[n].attrs)
  return d


def suite_data(rng, rec, i):
  nd = int(gen.pick(rng, [1, 2, 2, 3])); g, data, t, lead, samples = c24.make(rng, nd, samples=True, times=3, iso=nd == 2, shp=gen.pick(rng, [s for s in [(8,), (8, 8), (6, 6), (4, 6, 5)] if len(s) == nd]))
  det = f'data set {g}'; ds = c24.ds_of(rng, g, data, t, True, shuffle=bool(rng.random() < .5)); ds.attrs['ndim'] = nd; ds.attrs['note'] = 'kept'
  other = c24.ds_of(rng, g, [x + .2 * rng.standard_normal(x.shape) for x in data], t, True, shuffle=False); other.attrs['ndim'] = nd
  rec.case('data', nd, g.shape, lead)
  def pair(d, o):
    p = xarray.concat([d, o], dim='model'); p.coords['model'] = ['learned', 'ground_truth']; return p
  tasks = {'speed': lambda d, o: xu.speed(d), 'energy': lambda d, o: xu.kinetic_energy(d), 'spectrum': lambda d, o: xu.energy_spectrum(d),
           'fourier': lambda d, o: xu.fourier_transform(d.u), 'autocorrelation': lambda d, o: xu.spatial_autocorrelation(d.u, 'x'),
           'correlations': lambda d, o: xu.velocity_spatial_correlation(d, 'x'), 'normalize': lambda d, o: xu.normalize(d.u, tuple('xyz'[:nd])),
           'error': lambda d, o: ev.absolute_error(pair(d, o).u), 'correlation': lambda d, o: ev.state_correlation(pair(d, o).u),
           'below': lambda d, o: ev.below_error_threshold(pair(d, o).u, xarray.DataArray(.3)).astype(float), 'average': lambda d, o: ev.average(d.u, nd),
           'magnitude': lambda d, o: xu.magnitude(d.u, d.v if nd > 1 else None)}
  if nd == 2:
    tasks.update(vorticity=lambda d, o: xu.vorticity_2d(d), enstrophy=lambda d, o: xu.enstrophy_2d(d), isotropic=lambda d, o: xu.isotropic_energy_spectrum(d),
                 averaged=lambda d, o: xu.isotropic_energy_spectrum(d, ('sample',)))
  def summary(d, o):
    with c24.NoDask(): return ev.compute_summary_dataset(d, o, (.3,))
  if i % 4 == 0: tasks['summary'] = summary
  for nm, f in tasks.items():
    a, b = dsnap(ds), dsnap(other)
    with warnings.catch_warnings():
      warnings.simplefilter('ignore')
      want = f(ds, other)
    dsame(rec, a, ds, f'{det} {nm}'); dsame(rec, b, other, f'{det} {nm} (second)')
    mode = gen.pick(rng, MODES[:5])
    l, m = lock(ds, mode), lock(other, mode); a = dsnap(l)
    with warnings.catch_warnings():
      warnings.simplefilter('ignore')
      got = f(l, m)
    dsame(rec, a, l, f'{det} {nm} {mode}')
    for p, q in zip(*[[z] if hasattr(z, 'dims') and not hasattr(z, 'data_vars') else list(z.data_vars.values()) if hasattr(z, 'data_vars') else [] for z in (got, want)]):
      rec.eq('same labels', (p.name, p.dims, sorted(map(str, p.coords))), (q.name, q.dims, sorted(map(str, q.coords))), f'{det} {nm} {mode}')
      rec.close('data set results do not depend on memory layout', p.values, q.values, tol=1e-10, scale=np.nanmax(np.abs(q.values)) + 1., detail=f'{det} {nm} {mode}')
  # building a data set leaves arrays, labels and attributes of the caller alone, and shares no attributes with it
  tr = tuple(np.array(x) for x in data); at = {'ndim': nd, 'seed': 3}; tt = np.array(t); b4 = freeze((tr, tt)); a4 = dict(at)
  d = xu.velocity_trajectory_to_xarray(tr, g, tt, at, samples=True)
  unchanged(rec, b4, (tr, tt), 'velocity_trajectory_to_xarray'); rec.eq('attributes of the caller are unchanged', at, a4, det)
  d.attrs['new'] = 1; rec.eq('attributes of the caller are unchanged', at, a4, det + ' after editing the data set')
  at['later'] = 2; rec.ok('attributes of the caller are unchanged', 'later' not in d.attrs, det)
  ga = {'ndim': 2, 'save_grid_size': 8, 'domain_size': 3.}; g4 = dict(ga); xu.grid_from_attrs(ga); rec.eq('attributes of the caller are unchanged', ga, g4, 'grid_from_attrs')
  if i % 3 == 0 and nd == 2:
    import matplotlib; matplotlib.use('Agg')
    x = np.array(data[0][0]); before = freeze(x); a = vz.trajectory_to_images(x)
    unchanged(rec, before, x, 'trajectory_to_images'); y = leaf(x, gen.pick(rng, MODES[:5])); b = vz.trajectory_to_images(y)
    rec.ok('images do not depend on memory layout', all(np.array_equal(np.asarray(p), np.asarray(q)) for p, q in zip(a, b)), det)


# --------------------------------------------------------------- constructors
def suite_constructors(rng, rec, i):
  """Objects do not follow later changes of the sequences they were made from."""
  nd = int(rng.integers(1, 4)); shp = [int(s) for s in rng.integers(2, 7, nd)]; dom = [[float(a), float(a + w)] for a, w in zip(rng.normal(size=nd), rng.uniform(.5, 3, nd))]
  st = [float(s) for s in rng.uniform(.1, 2, nd)]
  rec.case('constructors', nd, tuple(shp))
  box = gen.pick(rng, ['list', 'numpy']); wrap = (lambda x: [list(y) if isinstance(y, list) else y for y in x]) if box == 'list' else np.array
  key = core.grid_key(G.Grid(tuple(shp), domain=tuple(map(tuple, dom)))); key2 = core.grid_key(G.Grid(tuple(shp), step=tuple(st)))
  S, D, T = wrap(shp), wrap(dom), wrap(st)
  g = G.Grid(S, domain=D); g2 = G.Grid(S, step=T)
  rec.eq('grids copy the sequences they are made from', (core.grid_key(g), core.grid_key(g2)), (key, key2), f'{box}')
  h = hash(g); eq = G.Grid(tuple(shp), domain=tuple(map(tuple, dom)))
  for seq_ in (S, D, T):
    b4 = np.array(seq_)
    if box == 'list' and isinstance(seq_[0], list): seq_[0][1] += 5.; seq_.append([0., 1.])
    elif box == 'list': seq_[0] += 1; seq_.append(9)
    else: seq_ += 1
    del b4
  rec.eq('grids copy the sequences they are made from', (core.grid_key(g), core.grid_key(g2)), (key, key2), f'{box} edited afterwards')
  rec.ok('grids copy the sequences they are made from', hash(g) == h == hash(eq) and g == eq, f'{box}: equality and hash')
  # boundary conditions built from lists
  T1 = gen.bc_types(rng, nd); vals = [tuple(None if t == gen.P else float(rng.normal()) for t in ts_) for ts_ in T1]
  tl, vl = [list(t) for t in T1], [list(v) for v in vals]
  tb, vb = copy.deepcopy(tl), copy.deepcopy(vl)
  bc = B.ConstantBoundaryConditions(T1, tuple(vals)); b2 = B.ConstantBoundaryConditions(tl, vl)
  x = gen.array(rng, eq.shape, 'normal'); off = gen.admissible_offset(rng, T1, (.5,))
  p, q = [G.GridVariable(gen.arr(x, off, eq), b) for b in (bc, b2)]
  for ax in range(nd):
    rec.close('boundary conditions accept any sequence', q.shift(1, ax).data, p.shift(1, ax).data, tol=1e-14, scale=np.abs(x).max() + 5, detail=f'{T1}')
  rec.eq('sequences given to boundary conditions are unchanged', (tl, vl), (tb, vb), f'{T1}')
  # tableaux and forcing lists
  a, b = [[.5], [0., 1.]], [.25, .25, .5]; a0, b0 = copy.deepcopy(a), list(b)
  y = rng.standard_normal(4); M = rng.standard_normal((4, 4)); ode = ts.ExplicitNavierStokesODE(lambda v: M @ v, lambda v: v)
  st_ = ts.navier_stokes_rk(ts.ButcherTableau(a, b), ode, .1)
  r1 = np.asarray(st_(y)); r2 = np.asarray(st_(y))
  rec.ok('sequences given to steppers are unchanged', (a, b) == (a0, b0), f'{a} {b}')
  rec.ok('a repeated call gives the same result', np.array_equal(r1, r2), 'stepper from lists')
  ones = lambda w: (lambda v: tuple(w * u.array for u in v))
  fs = [ones(1.), ones(2.)]; F = fo.sum_forcings(*fs)
  per = B.periodic_boundary_conditions(nd); v = tuple(G.GridVariable(gen.arr(gen.array(rng, eq.shape, 'normal'), o, eq), per) for o in eq.cell_faces)
  for k in range(2):
    for u, w in zip(F(v), v): rec.close('forcings do not accumulate between calls', u, 3. * np.asarray(w.data), tol=1e-13, scale=np.abs(np.asarray(w.data)).max(), detail=f'call {k}')


SUITES = {'catalogue': (suite_catalogue, 51, 1200), 'compiled': (suite_compiled, 17, 500), 'history': (suite_history, 34, 800),
          'entries': (suite_entries, 48, 1500), 'data': (suite_data, 12, 300), 'constructors': (suite_constructors, 20, 800)}
REQUIRED = ['inputs are unchanged bit for bit', 'containers and metadata of inputs are unchanged', 'numpy inputs give the result of JAX inputs',
            'same locations, grids and boundary conditions', 'earlier results are not changed by later calls', 'inputs remain usable',
            'a repeated call gives the same result', 'equal objects give equal results', 'data sets are unchanged',
            'data set results do not depend on memory layout', 'grids copy the sequences they are made from', 'executed with read-only inputs',
            'executed with fortran inputs', 'executed with strided inputs', 'boundary conditions accept any sequence']
