"""C11: fast diagonalization applies the stated function of the summed operator."""
import functools
import numpy as np
import scipy.linalg
import jax
import jax.numpy as jnp
from jax_cfd.base import fast_diagonalization as fdz, array_utils as au, boundaries as B, grids as G
from vlib import gen

RULE = ('random Hermitian (real, complex) and circulant (symmetric, non-symmetric) operators per axis, 1-4 axes, '
        'odd/even/unit sizes, four data types, several functions, spectra scaled by 1e-6..1e6, singular and regular; '
        'distinct by (kind, shape, dtype, implementation, function)')
ASSUMPTIONS = ['functions passed to circulant implementations satisfy f(conj z) = conj f(z), so real operators stay real',
               'dense operators have at most a few hundred rows']

F = {
    'exp': lambda m: (lambda x: np.exp(x / m)),
    'resolvent': lambda m: (lambda x: m / (3 * m - x)),
    'square': lambda m: (lambda x: x * x / m ** 2),
    'affine': lambda m: (lambda x: 1 + x / m),
    'one': lambda m: np.ones_like,
}


def dense(ops):
  n = [o.shape[0] for o in ops]
  M = 0
  for a, o in enumerate(ops):
    k = np.eye(1)
    for b in range(len(ops)):
      k = np.kron(k, o if b == a else np.eye(n[b]))
    M = M + k
  return M


def fun_dense(f, M, hermitian):
  if hermitian:
    w, Q = np.linalg.eigh(M)
    return (Q * f(w)) @ Q.conj().T
  w, Q = np.linalg.eig(M)
  return None


def circ_apply(f, ops, x):
  """Oracle for circulant operators: explicit DFT matrices, no FFT."""
  lam = 0; y = np.asarray(x, complex)
  D = []
  for a, o in enumerate(ops):
    n = o.shape[0]
    k = np.arange(n)
    W = np.exp(-2j * np.pi * np.outer(k, k) / n)
    s = [1] * len(ops); s[a] = n
    lam = lam + (W @ o[:, 0]).reshape(s)
    D.append(W)
    y = np.moveaxis(np.tensordot(W, y, (1, a)), 0, a)
  y = y * f(lam)
  for a, W in enumerate(D):
    y = np.moveaxis(np.tensordot(W.conj() / len(W), y, (1, a)), 0, a)
  return y


SHP = [(1,), (2,), (5,), (8,), (3, 4), (4, 3), (6, 6), (2, 8), (8, 1), (5, 5), (3, 4, 2), (2, 3, 5), (4, 4, 6), (2, 3, 2, 4), (3, 2, 4, 1), (65,), (128,), (20, 18), (7, 34)]
TOL = {'float32': 3e-5, 'complex64': 3e-5, 'float64': 1e-11, 'complex128': 1e-11}


def s_function(rng, rec, i):
  shp = gen.pick(rng, SHP)
  kind = gen.pick(rng, ['hermitian', 'complex', 'symcirc', 'circ', 'laplacian'])
  sc = float(10. ** rng.integers(-6, 7))
  ops = []
  for n in shp:
    if kind in ('hermitian', 'complex'):
      a = rng.standard_normal((n, n)) + (1j * rng.standard_normal((n, n)) if kind == 'complex' else 0)
      a = a + a.conj().T
    elif kind == 'circ':
      a = scipy.linalg.circulant(rng.standard_normal(n))
    elif kind == 'symcirc':
      c = rng.standard_normal(n); c = c + np.roll(c[::-1], 1)
      a = scipy.linalg.circulant(c)
    else:
      a = au.laplacian_matrix(n, float(np.exp(rng.normal())))
    ops.append(sc * a)
  herm = kind != 'circ'; circ = kind in ('circ', 'symcirc', 'laplacian')
  dt = gen.pick(rng, ['complex64', 'complex128'] if kind == 'complex' else ['float32', 'float64', 'float64'])
  M = dense(ops)
  m = np.abs(np.linalg.eigvals(M)).max() + 1e-30 * sc + 1e-300
  fname = gen.pick(rng, list(F)); f = F[fname](m)
  x = rng.standard_normal(shp) + (1j * rng.standard_normal(shp) if kind == 'complex' else 0)
  x = x.astype(dt)
  if circ:
    want = circ_apply(f, ops, x)
  else:
    want = (fun_dense(f, M, True) @ x.ravel()).reshape(shp)
  if not dt.startswith('complex'): want = np.real(want)
  impls = []
  if herm: impls.append('matmul')
  if circ: impls.append('fft')
  if circ and shp[-1] % 2 == 0: impls.append('rfft')
  if circ and herm: impls.append(None)
  S = np.abs(x).max() * np.sqrt(x.size) * 3
  for impl in impls:
    rec.case(kind, shp, dt, impl, fname)
    det = f'{kind} {shp} {dt} {impl} {fname} scale {sc:g}'
    T = fdz.transform(f, ops, np.dtype(dt), hermitian=herm, circulant=circ, implementation=impl)
    y = T(jnp.asarray(x))
    rec.close('function of the operator', y, want, tol=TOL[dt] * 3, scale=S, detail=det)
    rec.eq('dtype', str(y.dtype), dt, det)
    rec.close('compiled', jax.jit(T)(jnp.asarray(x)), y, tol=TOL[dt], scale=S, detail=det)


def s_pinv(rng, rec, i):
  shp = gen.pick(rng, SHP)
  kind = gen.pick(rng, ['periodic', 'walls', 'lowrank', 'complex', 'regular', 'circ'])
  unit = float(10. ** rng.integers(-5, 6))
  ops = []
  for n in shp:
    h = unit * float(np.exp(rng.normal() * .5))
    if kind == 'periodic':
      a = au.laplacian_matrix(n, h)
    elif kind == 'walls':
      a = np.zeros((n, n))
      for j in range(n - 1):
        a[j:j + 2, j:j + 2] += np.array([[-1, 1], [1, -1]]) / h ** 2
    elif kind in ('lowrank', 'complex'):
      q = np.linalg.qr(rng.standard_normal((n, n)) + (1j * rng.standard_normal((n, n)) if kind == 'complex' else 0))[0]
      w = -np.arange(n) ** 2. * np.exp(rng.uniform(0, 1)) / h ** 2
      a = (q * w) @ q.conj().T
      a = (a + a.conj().T) / 2
    elif kind == 'circ':
      c = rng.standard_normal(n) / h ** 2; c[0] -= c.sum()
      a = scipy.linalg.circulant(c)
    else:
      b = rng.standard_normal((n, n)); a = (b @ b.T + .3 * np.eye(n)) / h ** 2
    ops.append(a)
  herm = kind != 'circ'; circ = kind in ('periodic', 'circ')
  dt = gen.pick(rng, ['complex64', 'complex128'] if kind == 'complex' else ['float32', 'float64'])
  M = dense(ops)
  if not np.abs(M).max(): ops = None
  if ops is None:
    rec.case(kind, shp, 'zero'); return
  P = np.linalg.pinv(M, rcond=1e-12, hermitian=herm)
  x = rng.standard_normal(shp) + (1j * rng.standard_normal(shp) if kind == 'complex' else 0)
  if rng.random() < .3: x = x + 100.
  x = x.astype(dt)
  want = (P @ x.ravel()).reshape(shp)
  S = np.linalg.norm(P, 2) * np.sqrt((np.abs(x) ** 2).sum()) + 1e-300
  impls = (['matmul'] if herm else []) + (['fft'] if circ else []) + (['rfft'] if circ and shp[-1] % 2 == 0 else [])
  for impl in impls:
    rec.case(kind, shp, dt, impl, unit)
    det = f'{kind} {shp} {dt} {impl} unit {unit:g}'
    T = fdz.pseudoinverse(ops, np.dtype(dt), hermitian=herm, circulant=circ, implementation=impl)
    y = np.asarray(T(jnp.asarray(x)))
    rec.close('pseudoinverse', y, want, tol=TOL[dt] * 20, scale=S, detail=det)
    back = (M @ y.ravel().astype(complex)).reshape(shp)
    proj = (M @ P @ x.ravel()).reshape(shp)
    rec.close('inverts on the range', back, proj, tol=TOL[dt] * 100,
              scale=np.linalg.norm(M, 2) * S + 1e-300, detail=det)
    if kind in ('periodic', 'walls', 'circ'):
      one = np.ones(shp, dt)
      rec.small('null space', T(jnp.asarray(one)), np.linalg.norm(P, 2) * np.sqrt(x.size), TOL[dt] * 20, detail=det)
  # an explicit cutoff drops exactly the eigenvalues below it
  if herm and kind != 'complex':
    w, Q = np.linalg.eigh(M)
    aw = np.unique(np.round(np.abs(w), 14 - int(np.floor(np.log10(np.abs(w).max())))))
    if len(aw) > 2:
      k = int(rng.integers(1, len(aw)))
      cut = .5 * (aw[k] + aw[k - 1])
      if aw[k] - aw[k - 1] > 1e-3 * aw[-1]:
        wi = np.array([1 / v if abs(v) > cut else 0. for v in w])
        want = ((Q * wi) @ (Q.T @ x.ravel())).reshape(shp)
        for impl in impls:
          T = fdz.pseudoinverse(ops, np.dtype(dt), hermitian=herm, circulant=circ, implementation=impl, cutoff=float(cut))
          rec.close('cutoff', T(jnp.asarray(x)), want, tol=TOL[dt] * 20, scale=np.abs(x).max() * np.sqrt(x.size) / aw[k],
                    detail=f'{impl} {kind} {shp}')


def s_wide(rng, rec, i):
  """Spectra spanning many decades: every eigenvalue well above the rounding level is inverted, for every data type."""
  nd = int(rng.integers(1, 4)); shp = tuple(int(x) for x in rng.integers(2, {1: 9, 2: 7, 3: 5}[nd], nd))
  kind = ['diagonal', 'hermitian', 'circulant'][i % 3]; sgn = -1. if rng.random() < .7 else 1.
  unit = float(10. ** rng.integers(-5, 6)); low = float(10. ** rng.uniform(-11, -7))
  ops = []; lam = []
  for a, n in enumerate(shp):
    top = 1. if a == 0 else 10. ** rng.uniform(-10, 0)
    w = np.sort(top * 10. ** rng.uniform(np.log10(low / top) if low < top else 0., 0, n)) + low
    w[0] = low  # no null space, but a very small smallest eigenvalue
    if kind == 'circulant':
      k = np.abs(np.fft.fftfreq(n) * n).round().astype(int); w = w[k]
      op = scipy.linalg.circulant(np.real(np.fft.ifft(w)))
    elif kind == 'hermitian':
      q = np.linalg.qr(rng.standard_normal((n, n)))[0]; op = (q * w) @ q.T; op = (op + op.T) / 2
    else: op = np.diag(rng.permutation(w))
    ops.append(sgn * unit * op)
  dt = gen.pick(rng, ['float32', 'float32', 'float64'])
  M = dense(ops)
  rec.case('wide', kind, shp, dt, int(np.log10(low)))
  x = rng.standard_normal(shp).astype(dt)
  want = np.linalg.solve(M, x.ravel().astype(float)).reshape(shp)
  impls = ['matmul'] + (['fft'] if kind == 'circulant' else []) + (['rfft'] if kind == 'circulant' and shp[-1] % 2 == 0 else [])
  for impl in impls:
    y = fdz.pseudoinverse(ops, np.dtype(dt), hermitian=True, circulant=kind == 'circulant', implementation=impl)(jnp.asarray(x))
    rec.close('every eigenvalue above the rounding level is inverted', y, want, tol=2e-3, detail=f'{kind} {shp} {dt} {impl} smallest/largest {low:.1e}')


def s_reject(rng, rec, i):
  sq = np.eye(4); f = lambda x: x
  T = fdz.transform
  rec.case('reject', i)
  d = np.dtype('float64')
  V = ValueError
  rec.raises('rejected', lambda: T(f, [np.ones((3, 4))], d, hermitian=True, circulant=True), V, 'non-square')
  rec.raises('rejected', lambda: T(f, [sq, np.ones(4)], d, hermitian=True, circulant=True), V, 'vector operator')
  rec.raises('rejected', lambda: T(f, [sq], d, circulant=True, implementation='matmul'), V, 'not hermitian')
  rec.raises('rejected', lambda: T(f, [sq], d, hermitian=True, implementation='fft'), V, 'not circulant (fft)')
  rec.raises('rejected', lambda: T(f, [sq], d, hermitian=True, implementation='rfft'), V, 'not circulant (rfft)')
  rec.raises('rejected', lambda: T(f, [sq, np.eye(5)], d, circulant=True, implementation='rfft'), V, 'odd rfft')
  rec.raises('rejected', lambda: T(f, [sq], d, hermitian=True, circulant=True, implementation='dct'), V, 'unknown')
  for impl in ('matmul', 'fft', 'rfft'):
    rec.raises('rejected', lambda: T(lambda x: x[..., :-1], [sq, sq], d, hermitian=True, circulant=True, implementation=impl), V, 'function shape')
    t = T(f, [np.eye(6), sq], d, hermitian=True, circulant=True, implementation=impl)
    for shp in ((4, 6), (6, 5), (1, 4), (6, 1), (2, 6, 4), (4,)):
      rec.raises('rejected', lambda: t(jnp.ones(shp)), Exception, f'{impl} rhs shape {shp} for (6, 4)')
    if impl != 'fft':
      rec.raises('rejected', lambda: t(jnp.ones((6, 4), np.float32)), V, f'{impl} rhs dtype')


SUITES = {'function': (s_function, 70, 2000), 'pinv': (s_pinv, 110, 2000), 'wide': (s_wide, 36, 600), 'reject': (s_reject, 1, 1)}
REQUIRED = ['function of the operator', 'compiled', 'pseudoinverse', 'inverts on the range', 'null space', 'cutoff', 'every eigenvalue above the rounding level is inverted', 'rejected']
