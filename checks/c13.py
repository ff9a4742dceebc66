"""C13: time steppers apply their published Runge-Kutta and IMEX schemes."""
import numpy as np
import jax
import jax.numpy as jnp
from jax_cfd.base import time_stepping as ts
from jax_cfd.spectral import time_stepping as sts
from vlib import gen

RULE = ('random nonlinear systems with nested states, linear projections, linear implicit operators, step sizes and '
        'coefficient tables (published and random); every evaluation of the user functions is logged and compared with '
        'an independent numpy recursion; distinct by (scheme, state structure, stages)')
ASSUMPTIONS = ['float64', 'published coefficients are transcribed in this check from the cited references',
               'steady states and linear stability are judged for linear implicit terms']

# published explicit tableaux
ERK = {
    'forward_euler': ([], [1.], 1),
    'midpoint_rk2': ([[.5]], [0., 1.], 2),
    'heun_rk2': ([[1.]], [.5, .5], 2),
    'classic_rk4': ([[.5], [0., .5], [0., 0., 1.]], [1 / 6, 1 / 3, 1 / 3, 1 / 6], 4),
}
WILLIAMSON = ([0, 1 / 3, 3 / 4, 1], [0, -5 / 9, -153 / 128], [1 / 3, 15 / 16, 8 / 15])
CARPENTER = ([0, 0.1496590219993, 0.3704009573644, 0.6222557631345, 0.9582821306748, 1],
             [0, -0.4178904745, -1.192151694643, -1.697784692471, -1.514183444257],
             [0.1496590219993, 0.3792103129999, 0.8229550293869, 0.6994504559488, 0.1530572479681])
SIL3 = ([[1 / 3], [1 / 6, 1 / 2], [1 / 2, -1 / 2, 1]],
        [[1 / 6, 1 / 6], [1 / 3, 0, 1 / 3], [3 / 8, 0, 3 / 8, 1 / 4]],
        [1 / 2, -1 / 2, 1, 0], [3 / 8, 0, 3 / 8, 1 / 4])


def structure(rng):
  k = int(rng.integers(4))
  if k == 0: return 'array', (lambda x: jnp.asarray(x[:6]).reshape(2, 3)), lambda s: np.asarray(s).ravel(), 6
  if k == 1: return 'tuple', (lambda x: (jnp.asarray(x[:2]), jnp.asarray(x[2:6]).reshape(2, 2))), (
      lambda s: np.concatenate([np.ravel(np.asarray(y)) for y in s])), 6
  if k == 2: return 'dict', (lambda x: {'a': jnp.asarray(x[0]), 'b': (jnp.asarray(x[1:3]), jnp.asarray(x[3:7]))}), (
      lambda s: np.concatenate([np.ravel(np.asarray(y)) for y in jax.tree_util.tree_leaves(s)])), 7
  return 'nested', (lambda x: [(jnp.asarray(x[:1]), {'q': jnp.asarray(x[1:4])}), jnp.asarray(x[4:5])]), (
      lambda s: np.concatenate([np.ravel(np.asarray(y)) for y in jax.tree_util.tree_leaves(s)])), 5


class System:
  """dx/dt = F(x) + A x with a projection P, on flattened states."""

  def __init__(self, rng, implicit=True):
    self.name, self.pack, self.flat, n = structure(rng)
    self.n = n
    self.B = rng.standard_normal((n, n)) * .5; self.C = rng.standard_normal((n, n)) * .3; self.d = rng.standard_normal(n) * .3
    Q = rng.standard_normal((n, n))
    self.A = -(Q @ Q.T) * .3 + .2 * (Q - Q.T) if implicit else np.zeros((n, n))
    q = np.linalg.qr(rng.standard_normal((n, max(1, n - 2))))[0]
    self.P = q @ q.T
    self.log = []

  def f(self, x): return np.tanh(self.B @ x) + self.C @ x * x + self.d

  # numpy callbacks log the concrete argument of each evaluation
  def explicit_terms(self, s):
    x = self.flat(s); self.log.append(('F', x)); return self.pack(self.f(x))

  def pressure_projection(self, s):
    x = self.flat(s); self.log.append(('P', x)); return self.pack(self.P @ x)

  def implicit_terms(self, s):
    x = self.flat(s); self.log.append(('G', x)); return self.pack(self.A @ x)

  def implicit_solve(self, s, dt):
    x = self.flat(s); self.log.append(('S', x, float(dt)))
    return self.pack(np.linalg.solve(np.eye(self.n) - float(dt) * self.A, x))


def erk_np(S, a, b, dt, u0):
  k = [S.f(u0)]; seq = [('F', u0)]
  for row in a:
    us = u0 + dt * sum(c * y for c, y in zip(row, k))
    seq.append(('P', us)); u = S.P @ us
    seq.append(('F', u)); k.append(S.f(u))
  us = u0 + dt * sum(c * y for c, y in zip(b, k))
  seq.append(('P', us))
  return S.P @ us, seq


def solve(S, x, dt): return np.linalg.solve(np.eye(S.n) - dt * S.A, x)


def bfe_np(S, dt, u): return solve(S, u + dt * S.f(u), dt)


def cnrk2_np(S, dt, u):
  h1 = S.f(u)
  u1 = solve(S, u + .5 * dt * S.A @ u + dt * h1, .5 * dt)
  return solve(S, u + .5 * dt * S.A @ u + .5 * dt * (h1 + S.f(u1)), .5 * dt)


def ls_np(S, al, be, ga, dt, u):
  h = 0
  for k in range(len(be)):
    h = S.f(u) + be[k] * h
    m = .5 * dt * (al[k + 1] - al[k])
    u = solve(S, u + ga[k] * dt * h + m * S.A @ u, m)
  return u


def imex_np(S, T, dt, y0):
  aex, aim, bex, bim = T
  f = [S.f(y0)]; g = [S.A @ y0]
  for re, ri in zip(aex, aim):
    i = len(f)
    y = y0 + dt * sum(c * x for c, x in zip(re, f)) + dt * sum(c * x for c, x in zip(ri[:i], g))
    y = solve(S, y, dt * ri[i])
    f.append(S.f(y)); g.append(S.A @ y)
  return y0 + dt * sum(c * x for c, x in zip(bex, f)) + dt * sum(c * x for c, x in zip(bim, g))


def judge_log(rec, name, log, want, det):
  """The multiset and order of evaluations made by the stepper."""
  rec.eq(name + ': evaluations', [e[0] for e in log], [e[0] for e in want], det)
  for a, b in zip(log, want):
    rec.close(name + ': stage arguments', a[1], b[1], tol=1e-12, scale=np.abs(b[1]).max() + 1, detail=f'{a[0]} {det}')


def sparse_row(rng, n):
  r = rng.standard_normal(n) * .6
  return [float(x) if rng.random() < .7 else 0. for x in r]


def s_explicit(rng, rec, i):
  S = System(rng)
  dt = float(rng.uniform(.01, .5))
  names = list(ERK) + ['random'] * 3
  name = names[i % len(names)]
  if name == 'random':
    n = int(rng.integers(1, 6))
    a = [sparse_row(rng, k + 1) for k in range(n - 1)]; b = sparse_row(rng, n)
    step = ts.navier_stokes_rk(ts.ButcherTableau(a=a, b=b), S, dt)
  else:
    a, b, _ = ERK[name]
    step = getattr(ts, name)(S, dt)
  u0 = rng.standard_normal(S.n)
  rec.case('explicit', name, S.name, len(b))
  det = f'{name} {S.name} dt {dt} a={a} b={b}'
  x = S.pack(u0); u = u0
  for k in range(2):
    S.log = []
    x2 = step(x)
    u2, seq = erk_np(S, a, b, dt, u)
    rec.close('explicit step', S.flat(x2), u2, tol=1e-12, scale=np.abs(u2).max() + 1, detail=det)
    rec.eq('structure', jax.tree_util.tree_structure(x2), jax.tree_util.tree_structure(x))
    rec.eq('structure', [y.shape for y in jax.tree_util.tree_leaves(x2)], [y.shape for y in jax.tree_util.tree_leaves(x)])
    judge_log(rec, 'explicit', S.log, seq, det)
    x, u = x2, u2
  n = len(b)
  rec.raises('rejected', lambda: ts.ButcherTableau(a=a, b=list(b) + [0.]), ValueError)
  if n > 1: rec.raises('rejected', lambda: ts.ButcherTableau(a=a, b=list(b)[:-1]), ValueError)
  rec.raises('rejected', lambda: ts.ButcherTableau(a=list(a) + [[0.] * n], b=b), ValueError)


def random_ls(rng):
  n = int(rng.integers(1, 6))
  return ([0.] + sorted(float(x) for x in rng.uniform(0, 1, n - 1)) + [1.],
          [float(x) for x in rng.normal(size=n) * .5], [float(x) for x in rng.uniform(.1, .8, n)])


def random_imex(rng):
  n = int(rng.integers(1, 5))
  return ([sparse_row(rng, k + 1) for k in range(n - 1)],
          [sparse_row(rng, k + 1) + [float(rng.uniform(0, .6))] for k in range(n - 1)], sparse_row(rng, n), sparse_row(rng, n))


IMEX = ['backward_forward_euler', 'crank_nicolson_rk2', 'crank_nicolson_rk3', 'crank_nicolson_rk4', 'imex_rk_sil3',
        'random_ls', 'random_imex', 'random_ls', 'random_imex']


def imex_pair(rng, name, S, dt):
  """(library stepper, reference step)."""
  if name == 'backward_forward_euler': return sts.backward_forward_euler(S, dt), lambda u: bfe_np(S, dt, u)
  if name == 'crank_nicolson_rk2': return sts.crank_nicolson_rk2(S, dt), lambda u: cnrk2_np(S, dt, u)
  if name == 'crank_nicolson_rk3': return sts.crank_nicolson_rk3(S, dt), lambda u: ls_np(S, *WILLIAMSON, dt, u)
  if name == 'crank_nicolson_rk4': return sts.crank_nicolson_rk4(S, dt), lambda u: ls_np(S, *CARPENTER, dt, u)
  if name == 'imex_rk_sil3': return sts.imex_rk_sil3(S, dt), lambda u: imex_np(S, SIL3, dt, u)
  if name == 'random_ls':
    al, be, ga = random_ls(rng)
    return sts.low_storage_runge_kutta_crank_nicolson(al, be, ga, S, dt), lambda u: ls_np(S, al, be, ga, dt, u)
  T = random_imex(rng)
  return (sts.imex_runge_kutta(sts.ImExButcherTableau(*T), S, dt), lambda u: imex_np(S, T, dt, u))


def s_imex(rng, rec, i):
  S = System(rng)
  dt = float(rng.uniform(.01, 1.))
  name = IMEX[i % len(IMEX)]
  step, want = imex_pair(rng, name, S, dt)
  u = rng.standard_normal(S.n); x = S.pack(u)
  rec.case('imex', name, S.name)
  for k in range(2):
    S.log = []
    x2 = step(x); u2 = want(u)
    rec.close('imex step', S.flat(x2), u2, tol=1e-11, scale=np.abs(u2).max() + 1, detail=f'{name} {S.name} dt {dt}')
    rec.eq('structure', jax.tree_util.tree_structure(x2), jax.tree_util.tree_structure(x))
    x, u = x2, u2
  # a steady state stays steady (published schemes are consistent)
  if not name.startswith('random'):
    us = rng.standard_normal(S.n)
    S.d = np.zeros(S.n); S.d = -(S.f(us) + S.A @ us)
    y = step(S.pack(us))
    rec.close('steady', S.flat(y), us, tol=1e-9 if name != 'crank_nicolson_rk4' else 1e-8, scale=np.abs(us).max() + 1, detail=name)


def s_reject(rng, rec, i):
  S = System(rng)
  n = int(rng.integers(2, 6))
  al, be, ga = list(np.linspace(0, 1, n + 1)), [.1] * n, [.2] * n
  rec.case('reject', n)
  mk = lambda a, b, c: (lambda: sts.low_storage_runge_kutta_crank_nicolson(a, b, c, S, .1))
  for a, b, c in ((al + [1.], be, ga), (al[:-1], be, ga), (al, be + [0.], ga), (al, be[:-1], ga), (al, be, ga + [0.]),
                  (al, be, ga[:-1]), (al, be[:-1], ga[:-1]), (al[:-1], be[:-1], ga), (al[:-1], be, ga[:-1])):
    rec.raises('rejected', mk(a, b, c), ValueError, f'{len(a)} {len(b)} {len(c)}')
  ae = [[.1] * (k + 1) for k in range(n - 1)]; ai = [[.1] * (k + 2) for k in range(n - 1)]
  for t in ((ae[:-1], ai, be, be), (ae, ai[:-1], be, be), (ae, ai, be[:-1], be), (ae, ai, be, be[:-1]), (ae, ai, be + [0.], be),
            (ae, ai, be[:-1], be[:-1])):
    rec.raises('rejected', lambda: sts.ImExButcherTableau(*t), ValueError, 'imex table')


ORDERS = {'forward_euler': 1, 'midpoint_rk2': 2, 'heun_rk2': 2, 'classic_rk4': 4, 'backward_forward_euler': 1,
          'crank_nicolson_rk2': 2, 'crank_nicolson_rk3': 2, 'crank_nicolson_rk4': 2, 'imex_rk_sil3': 2}
EXPLICIT_ORDERS = {'crank_nicolson_rk3': 3, 'crank_nicolson_rk4': 4}


class Smooth:
  """Traceable smooth nonlinear system for convergence histories."""

  def __init__(self, rng, implicit, project=True):
    n = self.n = 4
    self.B = jnp.asarray(rng.standard_normal((n, n)) * .7); self.d = jnp.asarray(rng.standard_normal(n))
    Q = rng.standard_normal((n, n))
    A = -(Q @ Q.T) * .3 if implicit else np.zeros((n, n))
    self.A = jnp.asarray(A)
    # the flow stays in the invariant subspace x[0] = 0
    self.P = jnp.asarray(np.diag([0.] + [1.] * (n - 1))) if project else jnp.eye(n)

  def explicit_terms(self, s):
    return jnp.tanh(self.B @ s) + self.d

  def pressure_projection(self, s): return self.P @ s
  def implicit_terms(self, s): return self.A @ s
  def implicit_solve(self, s, dt): return jnp.linalg.solve(jnp.eye(self.n) - dt * self.A, s)


def final(S, maker, n, T, x0):
  st = maker(S, T / n)
  return np.asarray(jax.jit(lambda x: jax.lax.fori_loop(0, n, lambda _, y: st(y), x))(x0))


def rk4_exact(fun, x, T, n=2000):
  h = T / n
  for _ in range(n):
    a = fun(x); b = fun(x + h / 2 * a); c = fun(x + h / 2 * b); d = fun(x + h * c)
    x = x + h / 6 * (a + 2 * b + 2 * c + d)
  return x


def s_order(rng, rec, i):
  names = list(ORDERS)
  name = names[i % len(names)]
  base = name in ERK
  imp = not base and (name not in EXPLICIT_ORDERS or (i // len(names)) % 2 == 0)
  order = ORDERS[name] if (imp or base or name not in EXPLICIT_ORDERS) else EXPLICIT_ORDERS[name]
  S = Smooth(rng, imp, project=base)
  maker = getattr(ts if base else sts, name)
  x0 = np.array(rng.standard_normal(4)); x0[0] = 0 if base else x0[0]
  T = 1.
  B, d, A, P = map(np.asarray, (S.B, S.d, S.A, S.P))
  fun = lambda x: (P if base else np.eye(4)) @ (np.tanh(B @ x) + d) + (A @ x if not base else 0)
  ref = rk4_exact(fun, x0, T)
  ns = [10, 20, 40] if order >= 3 else [20, 40, 80]
  e = [np.abs(final(S, maker, n, T, jnp.asarray(x0)) - ref).max() for n in ns]
  rate = np.log2(e[-2] / e[-1]) if e[-1] > 1e-12 else order
  rec.case('order', name, imp)
  rec.ok('order', rate > order - .45 or e[-1] < 3e-11, lambda: f'{name} (implicit {imp}) converges at order {rate:.2f} < {order}: errors {e}')
  rec.ok('order', e[0] < 1., f'{name} error {e}')


SUITES = {'explicit': (s_explicit, 42, 700), 'imex': (s_imex, 54, 900), 'reject': (s_reject, 3, 20), 'order': (s_order, 36, 300)}
REQUIRED = ['explicit step', 'explicit: evaluations', 'explicit: stage arguments', 'imex step', 'steady', 'structure', 'rejected', 'order']
