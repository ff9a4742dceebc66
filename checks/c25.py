"""C25: array helpers slice, split, interpolate and assemble operators faithfully."""
import numpy as np
import jax
import jax.numpy as jnp
import scipy.interpolate
from jax_cfd.base import array_utils as au, boundaries as B, grids as G
from vlib import gen, ref
from vlib.gen import P, Dd, N

RULE = ('random nested structures, axes (negative too), split points, block sizes and reductions; random sorted and '
        'unsorted abscissae with query points inside, at, and outside the data; Laplacian matrices for every '
        'combination of boundary types, location, size (from one cell) and step; distinct by these parameters')
ASSUMPTIONS = ['float64', 'interpolation abscissae are distinct', 'edge-aligned Neumann boundaries are rejected by the library']


def tree(rng, shp, k=None):
  k = int(rng.integers(4)) if k is None else k
  a = lambda: np.asarray(rng.integers(-50, 50, shp), float)
  return [a(), (a(), a()), {'x': a(), 'y': (a(), [a()])}, [a(), {'z': a()}]][k]


def leaves(t): return [np.asarray(x) for x in jax.tree_util.tree_leaves(t)]


def same(rec, name, got, want_leaves, struct, det):
  rec.eq(name, jax.tree_util.tree_structure(got), struct, 'structure ' + det)
  for x, y in zip(leaves(got), want_leaves):
    rec.ok(name, x.shape == y.shape and np.array_equal(x, y), lambda: f'{det}: {x.shape} vs {y.shape} {x} {y}')


def s_split(rng, rec, i):
  nd = int(rng.integers(1, 5))
  shp = gen.enlarge(tuple(int(x) for x in rng.integers(1, 6, nd)))
  ax = int(rng.integers(-nd, nd)); pos = ax % nd; n = shp[pos]
  t = tree(rng, shp); L = leaves(t); st = jax.tree_util.tree_structure(t)
  jt = jax.tree_util.tree_map(jnp.asarray, t) if rng.random() < .5 else t
  rec.case('split', shp, ax, str(st))
  det = f'{shp} axis {ax}'
  k = int(rng.integers(-n, n))
  same(rec, 'slice', au.slice_along_axis(jt, ax, k), [np.take(x, k, pos) for x in L], st, f'{det} index {k}')
  lo, hi = sorted(int(x) for x in rng.integers(0, n + 1, 2)); stp = int(rng.integers(1, 4))
  sl = slice(lo, hi, stp)
  same(rec, 'slice', au.slice_along_axis(jt, ax, sl), [np.take(x, np.arange(n)[sl], pos) for x in L], st, f'{det} {sl}')
  s = int(rng.integers(0, n + 1))
  a, b = au.split_along_axis(jt, s, ax)
  same(rec, 'split', a, [np.take(x, np.arange(s), pos) for x in L], st, det)
  same(rec, 'split', b, [np.take(x, np.arange(s, n), pos) for x in L], st, det)
  same(rec, 'concat', au.concat_along_axis([a, b], ax), L, st, det)
  parts = au.split_axis(jt, ax, keep_dims=True)
  rec.eq('split_axis', len(parts), n, det)
  for j, p in enumerate(parts):
    same(rec, 'split_axis', p, [np.take(x, [j], pos) for x in L], st, det)
  for j, p in enumerate(au.split_axis(jt, ax)):
    same(rec, 'split_axis', p, [np.take(x, j, pos) for x in L], st, det + ' squeezed')
  same(rec, 'concat', au.concat_along_axis(list(parts), ax), L, st, det)
  x = L[0]
  u = au.unstack(jnp.asarray(x), ax)
  rec.eq('unstack', len(u), n)
  for j, y in enumerate(u):
    rec.close('unstack', y, np.take(x, j, pos), tol=0)
  # leaves of different rank
  mix = (np.asarray(rng.standard_normal((3, 4, 2))), np.asarray(rng.standard_normal((5, 2))))
  rec.raises('ranks', lambda: au.slice_along_axis(mix, 0, 0), ValueError)
  r = au.slice_along_axis(mix, -1, 1, expect_same_dims=False)
  rec.close('ranks', r[0], mix[0][..., 1], tol=0); rec.close('ranks', r[1], mix[1][..., 1], tol=0)
  f, l = au.split_along_axis(mix, 1, -1, expect_same_dims=False)
  rec.close('ranks', f[0], mix[0][..., :1], tol=0); rec.close('ranks', l[1], mix[1][..., 1:], tol=0)
  rec.raises('axis range', lambda: au.slice_along_axis(t, nd, 0), ValueError)
  rec.raises('axis range', lambda: au.slice_along_axis(t, -nd - 1, 0), ValueError)
  if n > 1:
    bad = (np.zeros(shp), np.take(np.zeros(shp), np.arange(n - 1), pos))
    rec.raises('sizes', lambda: au.split_axis(bad, ax), ValueError)


RED = {'mean': (jnp.mean, np.mean), 'sum': (jnp.sum, np.sum), 'max': (jnp.max, np.max), 'min': (jnp.min, np.min),
       'std': (jnp.std, np.std), 'first': (lambda x: x.ravel()[0], lambda x: x.ravel()[0]),
       'last': (lambda x: x.ravel()[-1], lambda x: x.ravel()[-1])}


def s_blocks(rng, rec, i):
  nd = int(rng.integers(1, 4))
  blk = tuple(int(x) for x in rng.integers(1, 4, nd)); m = tuple(int(x) for x in rng.integers(1, 4, nd))
  x = rng.standard_normal(tuple(a * b for a, b in zip(blk, m)))
  name = gen.pick(rng, list(RED))
  rec.case('blocks', blk, m, name)
  want = np.empty(m)
  for idx in np.ndindex(*m):
    want[idx] = RED[name][1](x[tuple(slice(k * b, (k + 1) * b) for k, b in zip(idx, blk))])
  rec.close('block_reduce', au.block_reduce(jnp.asarray(x), blk, RED[name][0]), want, tol=1e-13, scale=np.abs(x).max() * x.size,
            detail=f'{blk} {m} {name}')
  bad = list(x.shape); bad[int(rng.integers(nd))] += 1
  if any(b > 1 and s % b for b, s in zip(blk, bad)):
    rec.raises('block_reduce: indivisible', lambda: au.block_reduce(jnp.zeros(bad), blk, RED[name][0]), ValueError)


def s_qr(rng, rec, i):
  m = int(rng.integers(1, 9)); n = int(rng.integers(1, min(m, 5) + 1))
  a = rng.standard_normal((m, n)) * 10. ** rng.integers(-3, 4)
  if rng.random() < .5: a = -np.abs(a)
  if np.linalg.cond(a) > 1e4:
    rec.skip('ill-conditioned'); return
  rec.case('qr', m, n)
  q, r = (np.asarray(x) for x in au.gram_schmidt_qr(jnp.asarray(a)))
  rec.close('qr', q @ r, a, tol=1e-10, detail=f'{m}x{n}')
  rec.close('qr', q.T @ q, np.eye(n), tol=1e-8)
  rec.small('qr', np.tril(r, -1), np.abs(a).max(), 1e-12)
  rec.ok('qr', (np.diag(r) > 0).all(), 'diagonal not positive')


def lin(x, y, q, mode, fill):
  """Piecewise-linear interpolation of one scalar query, by hand."""
  if mode == 'constant_extrapolate':
    q = min(max(q, x[0]), x[-1])
  elif mode == 'fill' and (q < x[0] or q > x[-1]):
    return np.full(y.shape[1:], fill)
  k = int(np.clip(np.searchsorted(x, q) - 1, 0, len(x) - 2))
  w = (q - x[k]) / (x[k + 1] - x[k])
  return (1 - w) * y[k] + w * y[k + 1]


def s_interp(rng, rec, i):
  n = int(rng.integers(2, 9)) if gen.PINS['large'] is None else int(rng.integers(40, 300)); nd = int(rng.integers(1, 4)); ax = int(rng.integers(-nd, nd)); pos = ax % nd
  x = np.cumsum(rng.uniform(.05, 2, n)) * 10. ** rng.integers(-2, 3) * 1. + rng.normal()
  shp = [int(k) for k in rng.integers(1, 4, nd)]; shp[pos] = n
  y = rng.standard_normal(shp)
  mode = gen.pick(rng, ['nan', 'fill', 'extrapolate', 'constant_extrapolate'])
  fill = float(rng.normal())
  qs = tuple(int(k) for k in rng.integers(1, 5, int(rng.integers(0, 3))))
  span = x[-1] - x[0]
  q = rng.uniform(x[0] - .4 * span, x[-1] + .4 * span, qs)
  if q.ndim and rng.random() < .6:
    f = q.ravel(); f[0] = x[int(rng.integers(n))]; f[-1] = gen.pick(rng, [x[0], x[-1]]); q = f.reshape(qs)
  srt = rng.random() < .6
  perm = np.arange(n) if srt else rng.permutation(n)
  fv = {'nan': np.nan, 'fill': fill}.get(mode, mode)
  kw = {} if mode == 'nan' else {'fill_value': fv}
  rec.case('interp', n, tuple(shp), ax, mode, qs, srt)
  f = au.interp1d(jnp.asarray(x[perm]), jnp.asarray(np.take(y, perm, pos)), axis=ax, assume_sorted=bool(srt), **kw)
  got = np.asarray(f(jnp.asarray(q)))
  Y = np.moveaxis(y, pos, 0)
  flat = np.stack([lin(x, Y, float(v), 'fill' if mode in ('nan', 'fill') else mode, np.nan if mode == 'nan' else fill)
                   for v in np.ravel(q)])
  want = np.moveaxis(flat, 0, pos).reshape(tuple(shp[:pos]) + qs + tuple(shp[pos + 1:]))
  rec.close('interp1d', got, want, tol=1e-9, scale=np.abs(y).max() * 10, detail=f'{mode} shape {shp} axis {ax} sorted {srt}')
  rec.close('interp1d: nodes', np.asarray(f(jnp.asarray(x))), y, tol=1e-10, scale=np.abs(y).max())
  rec.raises('interp1d: rejected', lambda: au.interp1d(x, y, axis=ax, fill_value='nearest'), ValueError)
  rec.raises('interp1d: rejected', lambda: au.interp1d(x[:1], np.take(y, [0], pos), axis=ax), ValueError)
  rec.raises('interp1d: rejected', lambda: au.interp1d(np.append(x, x[-1] + 1), y, axis=ax), ValueError)
  rec.raises('interp1d: rejected', lambda: au.interp1d(x, y, axis=ax, fill_value=np.zeros(2)), ValueError)
  rec.raises('interp1d: rejected', lambda: au.interp1d(x[None], y, axis=ax), ValueError)


def s_laplacian(rng, rec, i):
  nd = int(rng.integers(1, 4))
  shp = tuple(int(x) for x in rng.choice([1, 2, 3, 4, 5, 7], nd))
  g = gen.grid(rng, shp=shp)
  types = gen.bc_types(rng, nd)
  bc = B.HomogeneousBoundaryConditions(types)
  off = gen.admissible_offset(rng, types)
  # an edge-aligned field between two walls has one unknown fewer than cells
  off = tuple(.5 if types[a][0] != P and shp[a] == 1 else o for a, o in enumerate(off))
  rec.case('laplacian', types, off, shp)
  det = f'{types} {off} {g}'
  Ls = au.laplacian_matrix_w_boundaries(g, off, bc)
  rec.eq('laplacian: count', len(Ls), nd)
  for a, (L, n, h) in enumerate(zip(Ls, shp, g.step)):
    per = types[a][0] == P
    edge = abs(off[a] % 1) < 1e-9
    m = n - 1 if edge and not per else n
    if not rec.eq('laplacian: shape', L.shape, (m, m), det): continue
    want = np.zeros((m, m))
    for j in range(m):
      want[j, j] -= 2
      for s, k in ((0, j - 1), (1, j + 1)):
        if 0 <= k < m: want[j, k] += 1
        elif per: want[j, k % m] += 1
        elif edge: pass
        elif types[a][s] == N: want[j, j] += 1
        else: want[j, j] -= 1
    want /= h ** 2
    rec.close('laplacian', L, want, tol=1e-12, detail=f'axis {a} {det}')
    rec.close('laplacian: symmetric', L, L.T, tol=1e-13)
    w = np.linalg.eigvalsh(L)
    rec.leq('laplacian: negative', w, 0., 1e-12 / h ** 2)
    null = per or (not edge and set(types[a]) == {N})
    rec.eq('laplacian: null space', int((np.abs(w) < 1e-9 / h ** 2).sum()), int(null), det)
    if per:
      rec.close('laplacian: periodic', au.laplacian_matrix(n, h), want, tol=1e-12)
  # applied to a field: the operator of the library's own derivatives and of the reference
  x = gen.wall_fix(rng.standard_normal(shp), g, off, bc)
  F = ref.Field(gen.var(x, off, g, bc))
  from jax_cfd.base import finite_differences as fd
  lib = np.asarray(fd.laplacian(gen.var(x, off, g, bc)).data)
  sl = []
  for a in range(nd):
    if types[a][0] != P and abs(off[a] % 1) < 1e-9:
      sl.append(slice(0, -1) if off[a] > .5 else slice(1, None))
    else:
      sl.append(slice(None))
  sl = tuple(sl); xi = x[sl]
  app = sum(np.moveaxis(np.tensordot(L, xi, (1, a)), 0, a) for a, L in enumerate(Ls))
  S = np.abs(x).max() * sum(4 / h ** 2 for h in g.step) + 1e-300
  if xi.size:
    rec.close('laplacian: applied', app, lib[sl], tol=1e-11, scale=S, detail=det)
    if min(shp) > 1:
      rec.close('laplacian: applied', app, np.asarray(F.lap())[sl], tol=1e-11, scale=S, detail=det)
  for a in range(nd):
    if N in types[a]:
      bad = tuple(gen.pick(rng, [0., 1.]) if b == a else o for b, o in enumerate(off))
      rec.raises('laplacian: edge-aligned Neumann', lambda: au.laplacian_matrix_w_boundaries(g, bad, bc), NotImplementedError, det)


SUITES = {'split': (s_split, 40, 800), 'blocks': (s_blocks, 40, 600), 'qr': (s_qr, 25, 300),
          'interp': (s_interp, 30, 1000), 'laplacian': (s_laplacian, 60, 1500)}
REQUIRED = ['slice', 'split', 'concat', 'split_axis', 'unstack', 'ranks', 'block_reduce', 'block_reduce: indivisible', 'qr',
            'interp1d', 'interp1d: rejected', 'laplacian', 'laplacian: null space', 'laplacian: applied']
