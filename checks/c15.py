"""C15: spectral dealiasing, filters and padding act only on the stated wavenumbers."""
import numpy as np
import jax
import jax.numpy as jnp
from jax_cfd.base import filter_utils, grids as G
from jax_cfd.spectral import utils as su
from vlib import gen
from checks.c14 import spec2, eval2, spec1, eval1, coarse1, TWO_PI

RULE = ('random sizes (odd and even, non-square), domains and fields; filters are judged mode by mode against their '
        'formula, padded and truncated transforms against direct Fourier series evaluation; distinct by (function, shape)')
ASSUMPTIONS = ['float64', '1-D padded transforms of real signals act on rfft coefficients of even-sized signals without Nyquist mode']


def freqs(n, m):
  return np.round(np.fft.fftfreq(n) * n)[:, None], np.arange(m // 2 + 1)[None, :]


def shape2(rng):
  return int(rng.integers(3, 20)), int(rng.integers(3, 20))


def suite_brick(rng, rec, i):
  n, m = shape2(rng)
  g = gen.grid(rng, 2, (n, m))
  rec.case('brick', n, m)
  f = np.asarray(su.brick_wall_filter_2d(g))
  r, q = freqs(n, m)
  want = ((np.abs(r) <= (n - 1) // 3) & (q < int(2 / 3 * (m // 2 + 1)))).astype(float)
  rec.close('brick wall keeps exactly the stated band', f, want, tol=1e-15, detail=f'{n}x{m}')
  rec.ok('brick wall keeps the mean', f[0, 0] == 1, f'{n}x{m}')
  for k in range(1, (n - 1) // 2 + 1):
    rec.ok('brick wall treats both signs of a wavenumber alike', np.array_equal(f[k], f[n - k]), f'{n}x{m} k={k}')
  # products of two fields inside the band have no aliases inside the band
  if m % 2 == 0:
    a, b = [spec2(rng, n, m) * want for _ in range(2)]
    prod = np.fft.rfft2(np.fft.irfft2(a, s=(n, m)) * np.fft.irfft2(b, s=(n, m)))
    fine = eval2(g, a, 3 * n, 3 * m) * eval2(g, b, 3 * n, 3 * m)
    F = np.fft.fft2(fine) / 9
    ref = F[np.ix_(r[:, 0].astype(int) % (3 * n), np.arange(m // 2 + 1))]
    rec.close('products filtered by the brick wall are alias-free', prod * f, ref * want, tol=1e-10, scale=np.abs(ref).max(), detail=f'{n}x{m}')
    x = rng.standard_normal((n, m))
    y = np.fft.rfft2(x) * f
    rec.close('filtered real field stays real', np.fft.rfft2(np.fft.irfft2(y, s=(n, m))), y, tol=1e-11, scale=np.abs(y).max(), detail=f'{n}x{m}')


def suite_circular(rng, rec, i):
  n, m = shape2(rng)
  g = gen.grid(rng, 2, (n, m))
  rec.case('circular', n, m, np.round(g.step, 3))
  f = np.asarray(su.circular_filter_2d(g))
  r, q = freqs(n, m)
  Lx, Ly = [b - a for a, b in g.domain]
  k = np.sqrt((r / Lx) ** 2 + (q / Ly) ** 2)
  cphi = .65 * (m // 2) / Ly
  want = np.where(k <= cphi, 1, np.exp(-23.6 * (k - cphi) ** 4))
  near = np.abs(k - cphi) < 1e-9 * cphi
  rec.close('circular filter equals its formula', np.where(near, 1, f), np.where(near, 1, want), tol=1e-7, scale=1, detail=str(g))
  rec.ok('circular filter leaves the disk untouched', np.all(f[(k <= cphi) & ~near] == 1), str(g))
  rec.ok('circular filter stays in [0,1]', (f >= 0).all() and (f <= 1).all(), str(g))
  o = np.argsort(k.ravel(), kind='stable')
  rec.leq('circular filter damps monotonically', np.diff(f.ravel()[o]), np.zeros(n * (m // 2 + 1) - 1), slack=1e-6, detail=str(g))
  # filter_step multiplies every state by the filter
  calls = []
  def step(s): calls.append(1); return s * 2 + 1
  x = rng.standard_normal(f.shape) + 1j * rng.standard_normal(f.shape)
  got = su.filter_step(step, jnp.asarray(f))(jnp.asarray(x))
  rec.close('filter_step filters the result of the step', got, f * (2 * x + 1), tol=1e-12, detail=str(g))
  rec.eq('filter_step calls the step once', len(calls), 1)


def suite_exponential(rng, rec, i):
  n, m = shape2(rng)
  x = rng.standard_normal((n, m)) + rng.normal() * 3
  alpha = float(10. ** rng.uniform(-9, -1)); order = int(rng.integers(1, 5))
  if rng.random() < .3: alpha, order, kw = 1e-6, 2, {}
  else: kw = dict(alpha=alpha, order=order)
  rec.case('exponential', n, m, order)
  det = f'{n}x{m} alpha={alpha:.2e} order={order}'
  got = np.asarray(su.exponential_filter(jnp.asarray(x), **kw))
  rec.eq('exponential filter keeps shape', got.shape, (n, m), det)
  kx, ky = np.meshgrid(np.fft.fftfreq(n), np.fft.fftfreq(m), indexing='ij')
  sig = np.exp(np.log(alpha) * np.sqrt(kx ** 2 + ky ** 2) ** (2 * order))
  want = np.real(np.fft.ifft2(sig * np.fft.fft2(x)))
  rec.close('exponential filter damps each mode as stated', got, want, tol=1e-6, scale=np.abs(x).max(), detail=det)
  rec.close('exponential filter keeps the mean', got.mean(), x.mean(), tol=1e-9, scale=np.abs(x).max(), detail=det)
  ratio = np.abs(np.fft.fft2(got)) / np.abs(np.fft.fft2(x))
  rec.leq('exponential filter never amplifies', ratio, np.ones_like(ratio), slack=1e-8, detail=det)
  k2 = (kx ** 2 + ky ** 2).ravel(); o = np.argsort(k2, kind='stable')
  rec.leq('exponential filter damps monotonically', np.diff(ratio.ravel()[o]), np.zeros(n * m - 1), slack=1e-6, detail=det)


def suite_transforms(rng, rec, i):
  # real: 3/2 rule
  N = int(gen.pick(rng, [6, 8, 10, 12, 14, 16, 18, 20, 26]))
  c = spec1(rng, N)
  rec.case('rfft pad', N)
  u = np.asarray(su.padded_irfft(jnp.asarray(c)))
  M = u.size
  rec.ok('3/2 padding has enough samples for quadratic products', M >= 3 * (N // 2 - 1) + 1, f'N={N} M={M}')
  rec.close('padded_irfft samples the same function', u, eval1(c, N, 1., M), tol=1e-11, detail=f'N={N}')
  rec.close('truncated_rfft inverts padded_irfft', su.truncated_rfft(jnp.asarray(u)), c, tol=1e-11, scale=np.abs(c).max(), detail=f'N={N}')
  d = spec1(rng, N)
  p = np.asarray(su.truncated_rfft(su.padded_irfft(jnp.asarray(c)) * su.padded_irfft(jnp.asarray(d))))
  ref = coarse1(eval1(c, N, 1., 4 * N) * eval1(d, N, 1., 4 * N), N)
  rec.close('products through padded transforms are alias-free', p[:N // 2], ref[:N // 2], tol=1e-11, scale=np.abs(ref).max(), detail=f'N={N}')
  x = rng.standard_normal(M)
  t = np.asarray(su.truncated_rfft(jnp.asarray(x)))
  rec.close('truncated_rfft keeps the lowest modes with their amplitude', t[:N // 2], np.fft.rfft(x)[:N // 2] * N / M, tol=1e-11, detail=f'N={N}')
  # complex: 2x rule
  n = int(gen.pick(rng, [3, 4, 5, 6, 7, 8, 10, 12, 16]))
  rec.case('fft pad', n)
  k = np.round(np.fft.fftfreq(n) * n)
  c = np.fft.fft(rng.standard_normal(n) + 1j * rng.standard_normal(n))
  psi = np.asarray(su.padded_ifft_2x(jnp.asarray(c)))
  M = psi.size
  rec.ok('2x padding has twice the samples', M in (2 * n, 2 * n - 1), f'n={n} M={M}')
  rec.close('padded_ifft_2x samples the same function', psi, eval1(c, n, 1., M, real=False), tol=1e-11, detail=f'n={n}')
  rec.close('truncated_fft_2x inverts padded_ifft_2x', su.truncated_fft_2x(jnp.asarray(psi)), c, tol=1e-11, scale=np.abs(c).max(), detail=f'n={n}')
  if n % 2 == 0:
    c = spec1(rng, n, real=False)
    psi = np.asarray(su.padded_ifft_2x(jnp.asarray(c)))
    f = np.asarray(su.truncated_fft_2x(jnp.asarray(psi * np.abs(psi) ** 2)))
    fine = eval1(c, n, 1., 6 * n, real=False)
    ref = coarse1(fine * np.abs(fine) ** 2, n, real=False)
    keep = np.arange(n) != n // 2
    rec.close('cubic products through 2x transforms are alias-free', f[keep], ref[keep], tol=1e-11, scale=np.abs(ref).max(), detail=f'n={n}')


def suite_density(rng, rec, i):
  """filter_utils.filter: isotropic spectral filter in physical units."""
  g = gen.grid(rng, int(rng.integers(1, 4)), pool=None)
  x = gen.array(rng, g.shape)
  rec.case('filter', g.shape)
  ks = np.meshgrid(*[TWO_PI * np.fft.fftfreq(n, h) for n, h in zip(g.shape, g.step)], indexing='ij')
  k = np.sqrt(sum(a ** 2 for a in ks))
  kc = float(np.median(k)); mode = int(rng.integers(3))
  dens = [lambda q: jnp.exp(-(q / kc) ** 2), lambda q: jnp.where(q < kc * 1.0001, 1., 0.), lambda q: 1. / q][mode]
  npd = [lambda q: np.exp(-(q / kc) ** 2), lambda q: np.where(q < kc * 1.0001, 1., 0.), lambda q: 1. / np.where(q == 0, 1, q)][mode]
  got = np.asarray(filter_utils.filter(dens, jnp.asarray(x), g))
  F = np.where(k > 0, npd(k), 0.)
  z = np.fft.ifftn(np.fft.fftn(x) * F)
  near = np.abs(k - kc * 1.0001) < 1e-8 * kc
  if mode == 1 and near.any(): rec.skip('cutoff on a mode'); return
  s = np.abs(x).max() * max(1., F.max())
  rec.close('spectral filter weights each wavenumber magnitude as stated', got, z.real, tol=1e-9, scale=s, detail=str(g))
  rec.small('spectral filter of a real field is real', z.imag, s, tol=1e-9, detail=str(g))
  rec.small('spectral filter removes the mean', np.array(got.mean()), s, tol=1e-10, detail=str(g))
  if mode == 1:
    rec.close('band projection is idempotent', filter_utils.filter(dens, jnp.asarray(got), g), got, tol=1e-9, scale=s, detail=str(g))


def suite_axes(rng, rec, i):
  """Frequency axes differentiate band-limited fields exactly, keep them real and mean-free."""
  g = gen.grid(rng, 2, shape2(rng))
  n, m = g.shape
  rec.case('axes', n, m)
  c = spec2(rng, n, m, (n - 1) // 2, (m - 1) // 2)
  kx, ky = [np.asarray(k) for k in g.rfft_mesh()]
  x = np.fft.irfft2(c, s=(n, m))
  for ax, k in ((0, kx), (1, ky)):
    d = np.fft.irfft2(2j * np.pi * k * np.fft.rfft2(x), s=(n, m))
    ref = eval2(g, c, n, m, dx=int(ax == 0), dy=int(ax == 1))
    rec.close('spectral differentiation is exact', d, ref, tol=1e-10, scale=np.abs(ref).max(), detail=str(g))
    rec.small('spectral derivatives have zero mean', np.array(d.mean()), np.abs(d).max(), tol=1e-11, detail=str(g))
  L = [b - a for a, b in g.domain]
  for k, n_, l in zip(g.fft_axes(), g.shape, L):
    rec.close('full frequency axes', k, np.round(np.fft.fftfreq(n_) * n_) / l, tol=1e-12, detail=str(g))


SUITES = {
    'brick': (suite_brick, 80, 3000),
    'circular': (suite_circular, 60, 3000),
    'exponential': (suite_exponential, 60, 3000),
    'transforms': (suite_transforms, 60, 3000),
    'density': (suite_density, 60, 3000),
    'axes': (suite_axes, 50, 2000),
}
REQUIRED = ['brick wall keeps exactly the stated band', 'circular filter equals its formula',
            'exponential filter damps each mode as stated', 'products through padded transforms are alias-free',
            'cubic products through 2x transforms are alias-free', 'spectral filter weights each wavenumber magnitude as stated']
