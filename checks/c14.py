"""C14: spectral equations implement their PDE and invert consistently."""
import numpy as np
import jax
import jax.numpy as jnp
from jax_cfd.base import grids as G
from jax_cfd.base import forcings
from jax_cfd.spectral import equations as eq, time_stepping as sts, utils as su
from vlib import gen

RULE = ('random band-limited states on anisotropic domains; terms of every spectral equation are compared with a direct '
        'numpy evaluation of the PDE on a finer physical grid, and every explicit term and implicit solve made while '
        'trajectories run is observed; distinct by (equation, shape, options)')
ASSUMPTIONS = ['float64', 'states carry no Nyquist mode; the padded 1-D transforms are used with sizes divisible by four '
               '(the sizes they support)']

TWO_PI = 2 * np.pi
SH2 = [(8, 8), (12, 9), (9, 12), (10, 16), (16, 10), (9, 11)]
SH1 = [(8,), (10,), (12,), (14,), (16,)]


def spec2(rng, n, m, K=None, J=None, decay=0.):
  """rfft2 spectrum of a random real field with |row|<=K, col<=J."""
  K = (n - 1) // 3 if K is None else K
  J = int(2 / 3 * (m // 2 + 1)) - 1 if J is None else J
  c = np.fft.rfft2(rng.standard_normal((n, m)))
  r = np.abs(np.fft.fftfreq(n) * n)[:, None]; q = np.arange(m // 2 + 1)[None, :]
  return c * (r <= K + .1) * (q <= J) / (1 + r ** 2 + q ** 2) ** decay


def eval2(g, c, nf, mf, dx=0, dy=0):
  """Physical samples on an (nf, mf) grid of a derivative of the field with rfft2 coefficients c."""
  n, m = g.shape
  c = np.asarray(c)
  Lx, Ly = [b - a for a, b in g.domain]
  r = np.round(np.fft.fftfreq(n) * n); q = np.arange(m // 2 + 1)
  c = c * (TWO_PI * 1j * r[:, None] / Lx) ** dx * (TWO_PI * 1j * q[None, :] / Ly) ** dy
  X = np.exp(TWO_PI * 1j * np.outer(np.arange(nf) / nf, r)); Y = np.exp(TWO_PI * 1j * np.outer(q, np.arange(mf) / mf))
  w = np.where((q == 0) | (2 * q == m), 1., 2.)
  return np.real(X @ (c * w) @ Y) / (n * m)


def coarse2(f, n, m):
  """rfft2 coefficients (on an n x m grid) of the resolved modes of fine samples f."""
  nf, mf = f.shape
  F = np.fft.fft2(f) * (n * m) / (nf * mf)
  r = np.round(np.fft.fftfreq(n) * n).astype(int)
  return F[np.ix_(r % nf, np.arange(m // 2 + 1))]


def ns_velocity(g, c):
  n, m = g.shape
  Lx, Ly = [b - a for a, b in g.domain]
  kx = TWO_PI * np.round(np.fft.fftfreq(n) * n)[:, None] / Lx; ky = TWO_PI * np.arange(m // 2 + 1)[None, :] / Ly
  k2 = kx ** 2 + ky ** 2; k2[0, 0] = 1
  psi = c / k2; psi[0, 0] = 0  # -lap(psi) = omega, v = (psi_y, -psi_x)
  return psi, 1j * ky * psi, -1j * kx * psi, kx, ky


def advection_ref(g, c, smooth):
  n, m = g.shape
  _, vx, vy, _, _ = ns_velocity(g, c)
  nf, mf = (3 * n, 3 * m) if smooth else (n, m)
  f = -(eval2(g, vx, nf, mf) * eval2(g, c, nf, mf, dx=1) + eval2(g, vy, nf, mf) * eval2(g, c, nf, mf, dy=1))
  out = coarse2(f, n, m)
  if smooth:
    r = np.abs(np.round(np.fft.fftfreq(n) * n))[:, None]
    out = out * (r <= (n - 1) // 3) * (np.arange(m // 2 + 1)[None, :] <= int(2 / 3 * (m // 2 + 1)) - 1)
  return out


def ip2(a, b, m):
  w = np.where((np.arange(a.shape[1]) == 0) | (2 * np.arange(a.shape[1]) == m), 1., 2.)
  return float(np.real(np.sum(w * np.conj(a) * b)))


def suite_velocity(rng, rec, i):
  g = gen.grid(rng, 2, gen.pick(rng, SH2))
  n, m = g.shape
  c = spec2(rng, n, m, K=(n - 1) // 2, J=(m - 1) // 2)
  mean = c[0, 0]
  rec.case('velocity', g.shape, np.round(g.step, 3), sample={'domain': g.domain})
  vx, vy = [np.asarray(v) for v in su.vorticity_to_velocity(g)(jnp.asarray(c))]
  n3, m3 = 2 * n, 2 * m
  w = eval2(g, c, n3, m3)
  s = np.abs(w).max()
  ux, uy = eval2(g, vx, n3, m3), eval2(g, vy, n3, m3)
  div = eval2(g, vx, n3, m3, dx=1) + eval2(g, vy, n3, m3, dy=1)
  curl = eval2(g, vy, n3, m3, dx=1) - eval2(g, vx, n3, m3, dy=1)
  rec.small('recovered velocity is divergence-free', div, s, tol=1e-10, detail=str(g))
  rec.close('curl of the recovered velocity is the vorticity', curl, w - np.real(mean) / (n * m), tol=1e-10, scale=s, detail=str(g))
  rec.small('recovered velocity has zero mean', np.array([ux.mean(), uy.mean()]), np.abs(ux).max() + np.abs(uy).max(), tol=1e-11)
  # spectral curl against physical curl
  a, b = spec2(rng, n, m, (n - 1) // 2, (m - 1) // 2), spec2(rng, n, m, (n - 1) // 2, (m - 1) // 2)
  got = np.asarray(su.spectral_curl_2d(g.rfft_mesh(), (jnp.asarray(a), jnp.asarray(b))))
  want = eval2(g, b, n3, m3, dx=1) - eval2(g, a, n3, m3, dy=1)
  rec.close('spectral curl', eval2(g, got, n3, m3), want, tol=1e-10, detail=str(g))
  # recovering the velocity of a divergence-free zero-mean flow from its curl returns that flow
  psi = spec2(rng, n, m, (n - 1) // 2, (m - 1) // 2); psi[0, 0] = 0
  _, _, _, kx, ky = ns_velocity(g, psi)
  a, b = 1j * ky * psi, -1j * kx * psi
  back = su.vorticity_to_velocity(g)(su.spectral_curl_2d(g.rfft_mesh(), (jnp.asarray(a), jnp.asarray(b))))
  s = max(np.abs(a).max(), np.abs(b).max())
  for x, y in zip(back, (a, b)):
    rec.close('velocity -> vorticity -> velocity', x, y, tol=1e-10, scale=s, detail=str(g))


def suite_ns2d(rng, rec, i):
  g = gen.grid(rng, 2, gen.pick(rng, SH2))
  n, m = g.shape
  smooth = bool(rng.random() < .6)
  nu, drag = float(gen.pick(rng, [0., 1e-3, .3])), float(gen.pick(rng, [0., .1, 2.]))
  forcing = gen.pick(rng, ['none', 'user', 'feedback', 'kolmogorov'])
  seen = []
  fdata = [rng.standard_normal((n, m)) for _ in range(2)]
  a = float(rng.normal())

  def user(grid):
    seen.append(('grid', grid))
    def f(v):
      seen.append(('v', [np.asarray(u.data) for u in v], [u.grid for u in v]))
      if forcing == 'feedback':
        return tuple(G.GridArray(a * u.data, u.offset, grid) for u in v)
      return tuple(G.GridArray(jnp.asarray(d), u.offset, grid) for d, u in zip(fdata, v))
    return f

  kk = int(rng.integers(1, 4))
  ff = {'none': None, 'user': user, 'feedback': user,
        'kolmogorov': lambda grid: forcings.kolmogorov_forcing(grid, k=kk, scale=1.7, offsets=((0, 0), (0, 0)))}[forcing]
  e = eq.NavierStokes2D(nu, g, drag=drag, smooth=smooth, forcing_fn=ff)
  c = spec2(rng, n, m)
  rec.case('ns2d', g.shape, smooth, forcing, nu > 0, drag > 0, sample={'domain': g.domain, 'smooth': smooth, 'forcing': forcing})
  det = f'{g.shape} smooth={smooth} forcing={forcing} domain={g.domain}'
  got = np.asarray(e.explicit_terms(jnp.asarray(c)))
  psi, vxh, vyh, kx, ky = ns_velocity(g, c)
  want = advection_ref(g, c, smooth)
  adv = want.copy()
  if forcing in ('user', 'kolmogorov'):
    if forcing == 'user': fx, fy = fdata
    else:
      y = g.domain[1][0] + np.arange(m) * g.step[1]
      fx = np.broadcast_to(1.7 * np.sin(kk * y), (n, m)); fy = np.zeros((n, m))
    want = want + 1j * kx * np.fft.rfft2(fy) - 1j * ky * np.fft.rfft2(fx)
  elif forcing == 'feedback':
    c0 = c.copy(); c0[0, 0] = 0
    want = want + a * c0
  s = np.abs(want).max() + np.abs(adv).max()
  rec.close('explicit terms are minus the advection of vorticity plus the curl of the forcing', got, want, tol=1e-9, scale=s, detail=det)
  if forcing in ('user', 'feedback'):
    rec.ok('forcing built on the grid of the equation', seen[0] == ('grid', g), det)
    vs = [x for x in seen if x[0] == 'v'][-1]
    ref = [eval2(g, vxh, n, m), eval2(g, vyh, n, m)]
    sv = max(np.abs(r).max() for r in ref)
    for x, r in zip(vs[1], ref):
      rec.close('forcing sees the velocity of the state', x, r, tol=1e-10, scale=sv, detail=det)
  L = -nu * (kx ** 2 + ky ** 2) - drag
  rec.close('implicit terms are viscosity times Laplacian minus drag', e.implicit_terms(jnp.asarray(c)), L * c, tol=1e-10,
            scale=np.abs(c).max() * (1 + np.abs(L).max()), detail=det)
  dt = float(gen.pick(rng, [1e-3, .1, 5.]))
  x = e.implicit_solve(jnp.asarray(c), dt)
  resid = np.asarray(x) - dt * np.asarray(e.implicit_terms(x)) - c
  rec.small('implicit solve inverts identity minus step times implicit terms', resid, np.abs(c).max(), tol=1e-10, detail=det)
  rec.close('implicit solve against formula', x, c / (1 - dt * L), tol=1e-10, scale=np.abs(c).max(), detail=det)
  rec.small('mean vorticity has no explicit tendency', got[0, 0] - (a * 0 if forcing == 'feedback' else 0), s, tol=1e-10, detail=det)
  if forcing in ('none', 'feedback'):
    h = np.fft.rfft2(np.fft.irfft2(got, s=(n, m)))
    rec.close('explicit terms are the spectrum of a real field', h, got, tol=1e-10, scale=s, detail=det)
  if forcing == 'none' and smooth:
    sc = np.sqrt(ip2(c, c, m) * ip2(got, got, m)) + 1e-300
    rec.small('dealiased advection conserves enstrophy', np.array(ip2(c, got, m)), sc, tol=1e-10, detail=det)
    sp = np.sqrt(ip2(psi, psi, m) * ip2(got, got, m)) + 1e-300
    rec.small('dealiased advection conserves energy', np.array(ip2(psi, got, m)), sp, tol=1e-10, detail=det)


def suite_forced_ns(rng, rec, i):
  """ForcedNavierStokes2D: fixed configuration of Kochkov et al."""
  g = gen.grid(rng, 2, gen.pick(rng, [(12, 16), (16, 12)])) if rng.random() < .5 else G.Grid((16, 16), domain=((0, TWO_PI),) * 2)
  n, m = g.shape
  nu = float(rng.uniform(1e-3, .1)); smooth = bool(rng.integers(2))
  e = eq.ForcedNavierStokes2D(nu, g, smooth)
  c = spec2(rng, n, m)
  rec.case('forced ns', g.shape, smooth, sample={'domain': g.domain})
  _, _, _, kx, ky = ns_velocity(g, c)
  y = g.domain[1][0] + np.arange(m) * g.step[1]
  want = advection_ref(g, c, smooth) - 1j * ky * np.fft.rfft2(np.broadcast_to(np.sin(4 * y), (n, m)))
  rec.close('explicit terms of the forced flow', e.explicit_terms(jnp.asarray(c)), want, tol=1e-9, scale=np.abs(want).max() + 1, detail=str(g))
  L = -nu * (kx ** 2 + ky ** 2) - .1
  rec.close('implicit terms of the forced flow include the drag', e.implicit_terms(jnp.asarray(c)), L * c, tol=1e-10,
            scale=np.abs(c).max() * (1 + np.abs(L).max()), detail=str(g))


# ---- 1-D equations ----------------------------------------------------------


def spec1(rng, N, real=True, K=None):
  K = N // 2 - 1 if K is None else K
  if real:
    c = np.fft.rfft(rng.standard_normal(N)); c[K + 1:] = 0
    return c
  k = np.abs(np.round(np.fft.fftfreq(N) * N))
  return np.fft.fft(rng.standard_normal(N) + 1j * rng.standard_normal(N)) * (k <= K)


def eval1(c, N, L, M, d=0, real=True):
  k = np.arange(N // 2 + 1) if real else np.round(np.fft.fftfreq(N) * N)
  w = np.where((k == 0) | (2 * k == N), 1., 2.) if real else 1.
  x = np.exp(TWO_PI * 1j * np.outer(np.arange(M) / M, k)) @ (np.asarray(c) * w * (TWO_PI * 1j * k / L) ** d) / N
  return x.real if real else x


def coarse1(f, N, real=True):
  F = np.fft.fft(f) * N / f.size
  k = np.arange(N // 2 + 1) if real else np.round(np.fft.fftfreq(N) * N).astype(int)
  return F[k % f.size]


def suite_one_d(rng, rec, i):
  which = ['ks', 'burgers', 'nls'][i % 3]
  g = gen.grid(rng, 1, gen.pick(rng, SH1))
  N, = g.shape; L = g.domain[0][1] - g.domain[0][0]
  smooth = bool(rng.random() < .65)
  dt = float(gen.pick(rng, [1e-3, .05, 2.]))
  det = f'{which} N={N} L={L:.4f} smooth={smooth}'
  h = TWO_PI * 1j * np.arange(N // 2 + 1) / L
  if which == 'ks':
    e = eq.KuramotoSivashinsky(g, smooth)
    c = spec1(rng, N)
    rec.case('ks', N, smooth, np.round(L, 3))
    M = 4 * N if smooth else N
    u = eval1(c, N, L, M)
    if smooth:
      want = coarse1(-u * eval1(c, N, L, M, 1), N)
    else:
      want = -.5 * h * np.fft.rfft(u * u)
    got = np.asarray(e.explicit_terms(jnp.asarray(c)))
    sl = slice(0, N // 2)  # the derivative of the Nyquist mode is not defined
    sc = np.abs(want).max()
    rec.close('KS explicit term is -(u^2/2)_x', got[sl], want[sl], tol=1e-9, scale=sc, detail=det)
    lin = -(h ** 2) - h ** 4
    g1 = np.asarray(e.implicit_terms(jnp.asarray(c)))
    rec.close('KS implicit term is -u_xx-u_xxxx', g1, lin * c, tol=1e-10, scale=np.abs(lin * c).max(), detail=det)
    rec.close('KS right-hand side in physical space', eval1((got + g1)[sl].tolist() + [0], N, L, 2 * N),
              eval1(want[sl].tolist() + [0], N, L, 2 * N) - eval1(c, N, L, 2 * N, 2) - eval1(c, N, L, 2 * N, 4), tol=1e-9,
              scale=sc / N * 4 + np.abs(eval1(c, N, L, 2 * N, 4)).max(), detail=det)
    x = np.asarray(e.implicit_solve(jnp.asarray(c), dt))
    rec.small('KS implicit solve inverts', x - dt * np.asarray(e.implicit_terms(jnp.asarray(x))) - c,
              np.abs(c).max() + np.abs(dt * lin * x).max(), tol=1e-10, detail=det)
    rec.small('KS mean has no tendency', np.array([got[0], g1[0]]), sc, tol=1e-11, detail=det)
    if smooth:
      ip = np.mean(u * eval1(got[sl].tolist() + [0], N, L, M))
      rec.small('KS nonlinear term conserves energy', np.array(ip), np.abs(u).max() * sc / N + 1e-300, tol=1e-10, detail=det)
  elif which == 'burgers':
    nu = float(gen.pick(rng, [0., 1e-2, .7])); seed = int(rng.integers(1000))
    mode = gen.pick(rng, ['none', 'user', 'wrapper'])
    log = []
    f0 = rng.standard_normal(N)

    def module(grid, s):
      log.append(('module', grid, s))
      def f(t):
        log.append(('t', float(t)))
        return jnp.asarray(f0) * jnp.cos(t)
      return f
    if mode == 'wrapper': e = eq.BurgersEquation(nu, g, seed)
    else: e = eq.ForcedBurgersEquation(nu, g, seed, forcing_module=None if mode == 'none' else module)
    c = spec1(rng, N); t = float(rng.uniform(0, 5))
    rec.case('burgers', N, mode, nu > 0, np.round(L, 3))
    u, ux = eval1(c, N, L, 4 * N), eval1(c, N, L, 4 * N, 1)
    want = coarse1(-u * ux, N)
    sc = np.abs(want).max() + 1e-300
    if mode == 'user':
      want = want + np.fft.rfft(f0) * np.cos(t)
    got, gt = e.explicit_terms((jnp.asarray(c), t))
    got = np.asarray(got)
    sl = slice(0, N // 2)
    rec.close('Burgers explicit term is -u u_x plus forcing', got[sl], want[sl], tol=1e-9, scale=sc + np.abs(want).max(), detail=det + mode)
    rec.eq('Burgers time advances at unit rate', (float(gt), float(e.implicit_terms((jnp.asarray(c), t))[1])), (1., 0.), det)
    if mode == 'user':
      rec.eq('forcing module receives grid and seed', log[0], ('module', g, seed), det)
      rec.eq('forcing is evaluated at the state time', log[1:], [('t', float(t))] if t == np.float32(t) else log[1:], det)
      rec.close('forcing time', log[-1][1], t, tol=1e-6, detail=det)
    lin = nu * h ** 2
    g1 = np.asarray(e.implicit_terms((jnp.asarray(c), t))[0])
    rec.close('Burgers implicit term is nu u_xx', g1, lin * c, tol=1e-10, scale=np.abs(lin * c).max() + 1e-12, detail=det)
    x, xt = e.implicit_solve((jnp.asarray(c), t), dt)
    x = np.asarray(x)
    rec.small('Burgers implicit solve inverts', x - dt * np.asarray(e.implicit_terms((jnp.asarray(x), t))[0]) - c, np.abs(c).max(), tol=1e-10, detail=det)
    rec.eq('implicit solve leaves the time alone', float(xt), t, det)
    if mode != 'user':
      rec.small('Burgers mean has no tendency', np.array([got[0], g1[0]]), sc, tol=1e-10, detail=det)
      ip = np.mean(u * eval1(got[sl].tolist() + [0], N, L, 4 * N))
      rec.small('Burgers advection conserves energy', np.array(ip), np.abs(u).max() * sc / N + 1e-300, tol=1e-9, detail=det)
  else:
    e = eq.NonlinearSchrodinger(g, smooth)
    c = spec1(rng, N, real=False)
    rec.case('nls', N, smooth, np.round(L, 3))
    k = TWO_PI * np.round(np.fft.fftfreq(N) * N) / L
    M = 5 * N if smooth else N
    psi = eval1(c, N, L, M, real=False)
    want = coarse1(-.5j * np.abs(psi) ** 2 * psi, N, real=False)
    keep = np.arange(N) != N // 2
    got = np.asarray(e.explicit_terms(jnp.asarray(c)))
    sc = np.abs(want).max()
    rec.close('NLS explicit term is -i|psi|^2 psi/2', got[keep] if smooth else got, want[keep] if smooth else want, tol=1e-9, scale=sc, detail=det)
    lin = 1j * k ** 2 / 8
    rec.close('NLS implicit term is -i psi_xx/8', e.implicit_terms(jnp.asarray(c)), lin * c, tol=1e-10, scale=np.abs(lin * c).max(), detail=det)
    x = np.asarray(e.implicit_solve(jnp.asarray(c), dt))
    rec.small('NLS implicit solve inverts', x - dt * np.asarray(e.implicit_terms(jnp.asarray(x))) - c, np.abs(c).max(), tol=1e-10, detail=det)
    rec.small('NLS terms conserve mass', np.array([np.real(np.vdot(c, got * keep)), np.real(np.vdot(c, np.asarray(e.implicit_terms(jnp.asarray(c)))))]),
              np.linalg.norm(c) * (np.linalg.norm(got) + np.linalg.norm(lin * c)), tol=1e-10, detail=det)


# ---- trajectories -----------------------------------------------------------


class Watch:
  """Online monitor: observes every explicit evaluation and implicit solve of an equation object."""

  def __init__(self, e, rec, det, judge):
    self.e, self.rec, self.det, self.judge = e, rec, det, judge

  def explicit_terms(self, s):
    r = self.e.explicit_terms(s); self.judge('F', s, r, None); return r

  def implicit_terms(self, s):
    return self.e.implicit_terms(s)

  def implicit_solve(self, s, dt):
    r = self.e.implicit_solve(s, dt); self.judge('S', s, r, dt); return r


STEPPERS = {'cn_rk2': sts.crank_nicolson_rk2, 'cn_rk3': sts.crank_nicolson_rk3, 'cn_rk4': sts.crank_nicolson_rk4,
            'bfe': sts.backward_forward_euler, 'sil3': sts.imex_rk_sil3}


def suite_traj2d(rng, rec, i):
  g = gen.mild_grid(rng, 2, gen.pick(rng, SH2))
  n, m = g.shape
  nu = float(rng.uniform(.02, .1)); drag = float(gen.pick(rng, [0., .2]))
  smooth = True
  e = eq.NavierStokes2D(nu, g, drag=drag, smooth=smooth)
  c = spec2(rng, n, m, decay=.7)
  psi, vxh, vyh, kx, ky = ns_velocity(g, c)
  vmax = max(np.abs(eval2(g, v, n, m)).max() for v in (vxh, vyh))
  kmax = max(np.abs(kx).max(), ky.max())
  dt = .15 / (vmax * kmax)
  name = gen.pick(rng, ['cn_rk2', 'cn_rk3', 'cn_rk4', 'sil3'])
  rec.case('traj2d', g.shape, name, drag > 0, sample={'domain': g.domain, 'nu': nu, 'dt': dt, 'stepper': name})
  det = f'{g.shape} {name} nu={nu:.3g} dt={dt:.3g}'
  L = -nu * (kx ** 2 + ky ** 2) - drag
  scale = [np.abs(c).max()]

  def judge(kind, s, r, h):
    s, r = np.asarray(s), np.asarray(r)
    if kind == 'F':
      rec.close('every explicit term along the trajectory', r, advection_ref(g, s, smooth), tol=1e-8,
                scale=np.abs(r).max() + 1e-9 * scale[0], detail=det)
    else:
      rec.small('every implicit solve along the trajectory', r * (1 - float(h) * L) - s, scale[0], tol=1e-9, detail=det)
    rec.close('every state is the spectrum of a real field', np.fft.rfft2(np.fft.irfft2(r, s=(n, m))), r, tol=1e-9,
              scale=np.abs(r).max() + 1e-12 * scale[0], detail=det)
  step = STEPPERS[name](Watch(e, rec, det, judge), dt)
  jstep = jax.jit(STEPPERS[name](e, dt))
  x = jnp.asarray(c)
  Z = ip2(c, c, m); E = ip2(psi, c, m)
  mean0 = c[0, 0]
  for k in range(12):
    x = step(x) if k in (0, 7) else jstep(x)
    a = np.asarray(x)
    p = ns_velocity(g, a)[0]
    a0 = a.copy(); a0[0, 0] = 0
    Z1, E1 = ip2(a, a, m), ip2(p, a0, m)
    rec.leq('unforced enstrophy does not grow', Z1, Z, slack=1e-10 * Z, detail=det)
    rec.leq('unforced energy does not grow', E1, E, slack=1e-10 * E, detail=det)
    if drag == 0:
      rec.close('mean vorticity is preserved', a[0, 0], mean0, tol=1e-10, scale=scale[0], detail=det)
    elif k == 0:
      pass
    Z, E = Z1, E1
  rec.ok('state stays finite', np.isfinite(np.asarray(x)).all(), det)
  if smooth:
    f = np.asarray(su.brick_wall_filter_2d(g))
    rec.small('state stays inside the dealiased band', np.asarray(x) * (1 - f), scale[0], tol=1e-10, detail=det)


def suite_traj1d(rng, rec, i):
  which = ['ks', 'burgers', 'nls'][i % 3]
  g = gen.mild_grid(rng, 1, gen.pick(rng, SH1))
  N, = g.shape; L = g.domain[0][1] - g.domain[0][0]
  name = gen.pick(rng, ['cn_rk3', 'cn_rk4', 'sil3'])
  det = f'{which} N={N} L={L:.3f} {name}'
  c = spec1(rng, N, real=which != 'nls', K=N // 4)
  c = c / np.abs(c).max() * N / 6
  rec.case('traj1d', which, N, name, np.round(L, 3))
  if which == 'ks':
    e = eq.KuramotoSivashinsky(g, True); dt = .05 * L / N
    x = jnp.asarray(c); step = jax.jit(STEPPERS[name](e, dt))
    for _ in range(15):
      x = step(x)
      rec.close('KS mean is preserved along the trajectory', np.asarray(x)[0], c[0], tol=1e-10, scale=np.abs(c).max(), detail=det)
      rec.ok('KS stays finite', np.isfinite(np.asarray(x)).all(), det)
  elif which == 'burgers':
    nu = float(rng.uniform(.05, .3))
    e = eq.BurgersEquation(nu, g); dt = .1 * L / N
    # a fine reference trajectory of the same semi-discrete system
    x = (jnp.asarray(c), jnp.asarray(0.)); step = jax.jit(STEPPERS[name](e, dt))
    E = np.sum(np.abs(c[1:]) ** 2)
    for k in range(15):
      x = step(x)
      a = np.asarray(x[0]); E1 = np.sum(np.abs(a[1:]) ** 2)
      rec.leq('Burgers energy does not grow', E1, E, slack=1e-10 * E, detail=det); E = E1
      rec.close('Burgers mean is preserved along the trajectory', a[0], c[0], tol=1e-10, scale=np.abs(c).max(), detail=det)
      rec.close('Burgers clock shows the elapsed time', np.asarray(x[1]), (k + 1) * dt, tol=1e-6, detail=det)
  else:
    e = eq.NonlinearSchrodinger(g, True); dt = 2e-3 * (L / N) ** 2
    x = jnp.asarray(c); step = jax.jit(STEPPERS['cn_rk4'](e, dt))
    M0 = np.sum(np.abs(c) ** 2)
    for _ in range(15):
      x = step(x)
    rec.close('NLS mass is conserved along the trajectory', np.sum(np.abs(np.asarray(x)) ** 2), M0, tol=1e-4, detail=det)
  # single steps converge to the flow of the right-hand side evaluated in physical space
  rec.ok('trajectory finite', all(np.isfinite(np.asarray(l)).all() for l in jax.tree_util.tree_leaves(x)), det)


def suite_reject(rng, rec, i):
  rec.case('reject', i)
  for n in (5, 7, 9, 15):
    g = gen.grid(rng, 1, (n,))
    rec.raises('odd grid of a real 1-D spectral equation rejected', lambda: eq.KuramotoSivashinsky(g, True), ValueError, f'KS {n}')
    rec.raises('odd grid of a real 1-D spectral equation rejected', lambda: eq.BurgersEquation(.1, g), ValueError, f'Burgers {n}')
    rec.raises('odd grid of a real 1-D spectral equation rejected', lambda: eq.ForcedBurgersEquation(.1, g), ValueError, f'forced Burgers {n}')
  rec.raises('odd Schrodinger grid rejected', lambda: eq.NonlinearSchrodinger(G.Grid((7,), domain=((0, 1),))), Exception, 'odd')


SUITES = {
    'velocity': (suite_velocity, 60, 2000),
    'ns2d': (suite_ns2d, 100, 4000),
    'forced_ns': (suite_forced_ns, 16, 400),
    'one_d': (suite_one_d, 120, 4000),
    'traj2d': (suite_traj2d, 32, 800),
    'traj1d': (suite_traj1d, 30, 900),
    'reject': (suite_reject, 1, 1),
}
REQUIRED = ['recovered velocity is divergence-free', 'every explicit term along the trajectory',
            'KS explicit term is -(u^2/2)_x', 'Burgers explicit term is -u u_x plus forcing',
            'NLS explicit term is -i|psi|^2 psi/2', 'unforced enstrophy does not grow']
