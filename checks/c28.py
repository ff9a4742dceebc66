"""C28: single precision (JAX's default) computes the same thing to within rounding."""
import copy
import functools
import warnings
import numpy as np
import jax
import jax.numpy as jnp
from jax_cfd.base import boundaries as B, diffusion as df, finite_differences as fd, funcutils as fu, grids as G
from jax_cfd.base import fast_diagonalization as fdg, initial_conditions as ic, pressure as pr, resize, forcings as fo
from jax_cfd.collocated import initial_conditions as cic, pressure as cpr
from jax_cfd.spectral import equations as seq, time_stepping as sts, utils as su
from vlib import core, gen, ref, workloads
from checks import c19
from checks.c10 import cdiv, cproject, div_np, project_np, wall_problem
from checks.c19 import flat, meta

RULE = ('the catalogue of components of C19, pressure and diffusion solves of every kind at speeds from 1e-6 to 1e6, repeated '
        'projections, initial conditions, spectral steps and trajectories, each executed with 32-bit types and with 64-bit types on the '
        'same (32-bit representable) inputs; values, data types, locations and derivatives are compared, and invariants are measured '
        'with numpy; distinct by component and configuration')
ASSUMPTIONS = ['tolerances are multiples of the single-precision rounding unit (1.2e-7) and of the condition of the operation',
               'time steps are stable, so that rounding errors are not amplified', 'every input has 32-bit types']

EPS = float(np.finfo(np.float32).eps)
PB = B.periodic_boundary_conditions


def single(): return jax.enable_x64(False)


def isf(x): return np.issubdtype(np.asarray(x).dtype, np.floating)


def f32(t):
  """32-bit copy of a tree (to be called with 32-bit types in force)."""
  return jax.tree_util.tree_map(lambda x: jnp.asarray(np.asarray(x, np.float32)) if isf(x) else x, t)


def f64(t): return jax.tree_util.tree_map(lambda x: jnp.asarray(np.asarray(x, np.float32).astype(np.float64)) if isf(x) else x, t)


def raw(v): return [np.asarray(u.data, np.float64) for u in v]


def kinds(rec, got, want, det):
  """Data types are 32-bit and everything static is the same."""
  for x, y in zip(flat(got), flat(want)):
    w = {'float64': 'float32', 'complex128': 'complex64'}.get(str(y.dtype), str(y.dtype))
    rec.ok('results of 32-bit inputs have 32-bit types', str(x.dtype) == w or str(x.dtype) == {'int64': 'int32'}.get(w), lambda: f'{det}: {x.dtype}')
  a, b = meta(got), meta(want)
  rec.ok('same locations, grids and boundary conditions in both precisions', len(a) == len(b) and all(
      p[0] == q[0] and p[1:3] == q[1:3] and (p[0] != 'variable' or (p[3] == q[3] and p[4] == q[4])) for p, q in zip(a, b)),
         lambda: f'{det}: {a} expected {b}')


def agree(rec, mon, got, want, det, tol, floor=0.):
  kinds(rec, got, want, det)
  for x, y in zip(flat(got), flat(want)):
    s = max(np.abs(y).max() if y.size else 0., floor) + 1e-30
    rec.close(mon, x.astype(np.float64) if isf(x) else x, y, tol=tol, scale=s, detail=det)


# components whose condition exceeds a few roundings
TOL = {'point': 1e-4, 'projection': 1e-4, 'step': 1e-4, 'collocated': 1e-4, 'implicit_diffusion': 3e-5, 'spectral': 3e-5,
       'interp1d': 1e-4, 'boundaries': 3e-5, 'les': 3e-5}


def twice(rng, make):
  """The same thing made with 32-bit and with 64-bit types, from the same random state."""
  r2 = copy.deepcopy(rng); pins = dict(gen.PINS['grids'])
  with single(): a = make(r2)
  gen.PINS['grids'] = pins
  return a, make(rng)


def component(rng, name):
  def make(r):
    c = c19.CATALOGUE[name](r)
    return c, c.sample(r)
  (c, x), (C, _) = twice(rng, make)
  with single(): x = f32(x)
  return c, x, C, f64(x)


def suite_catalogue(rng, rec, i):
  name = c19.NAMES[i % len(c19.NAMES)]
  c, x, C, X = component(rng, name)
  det = f'{name} {C.det}'
  rec.case('catalogue', name, C.det, sample={'component': name, 'configuration': C.det})
  want = C.fn(*X)
  tol = TOL.get(name, 1e-5)
  if 'les_implicit' in C.det: tol = 1e-3
  with single():
    got = c.fn(*x)
    agree(rec, 'single precision gives the double-precision result', got, want, det, tol)
    if i % 3 == 0:
      comp = jax.jit(c.fn)(*x)
      agree(rec, 'compiled single precision gives the double-precision result', comp, want, det, tol)
    if i % 3 == 1:
      b = jax.vmap(c.fn)(*jax.tree_util.tree_map(lambda a: jnp.stack([jnp.asarray(a)] * 2), x))
      agree(rec, 'batched single precision gives the double-precision result', jax.tree_util.tree_map(lambda a: a[1], b), want, det, tol)
  rec.events['components executed in both precisions'] += 1


def suite_derivatives(rng, rec, i):
  names = [n for n in c19.NAMES if n not in ('stable_step',)]
  name = names[i % len(names)]
  c, x, C, X = component(rng, name)
  if not C.diff:
    rec.events['component not differentiated'] += 1; return
  det = f'{name} {C.det}'
  rec.case('derivatives', name, C.det)
  t = c19.tangent(rng, X); t = f64(t)
  both = lambda C: (lambda p, q, w: (jax.jvp(lambda a: C.fn(*a), (p,), (q,))[1],) + ((jax.vjp(lambda a: C.fn(*a), p)[1](w)[0],) if C.reverse else ()))
  w = f64(c19.rand_like(rng, jax.eval_shape(lambda a: C.fn(*a), X)))
  want = jax.jit(both(C))(X, t, w)
  tol = 10 * TOL.get(name, 1e-5)
  with single():
    got = jax.jit(both(c))(x, f32(t), f32(w))
    for a in flat(got): rec.ok('single-precision derivatives are finite', np.isfinite(a).all(), det)
    agree(rec, 'single precision gives the double-precision derivatives', got, want, det, tol)


def solver(kind):
  return {'fast_diag': pr.solve_fast_diag, 'default': None, 'matmul': functools.partial(pr.solve_fast_diag, implementation='matmul'),
          'fft': functools.partial(pr.solve_fast_diag, implementation='fft'), 'cg': pr.solve_cg,
          'cg tight': functools.partial(pr.solve_cg, rtol=1e-12, atol=0.)}[kind]


def project(v, kind): return pr.projection(v) if kind == 'default' else pr.projection(v, solver(kind))


SIZES = [(8, 8), (16, 12), (9, 7), (6, 8, 5), (33, 32), (64, 48), (12, 16, 8)]


def suite_projection(rng, rec, i):
  """Projections leave rounding errors only, at any speed, and may be repeated."""
  kind = ['default', 'cg', 'fast_diag', 'cg tight', 'fft', 'cg', 'matmul'][i % 7]
  walls = kind != 'fft' and rng.random() < .4
  g = gen.mild_grid(rng, shp=gen.pick(rng, SIZES)); n = g.ndim
  U = float(np.float32(10. ** rng.uniform(-6, 6))) if rng.random() < .7 else 1.
  if kind == 'cg': U = max(U, 1.)  # the default tolerance is absolute
  mean = float(gen.pick(rng, [0., 0., 30.]))
  if walls:
    _, w, bcs = c19.wall_setup(rng, g.shape); mean = 0.
  else: bcs = [PB(n)] * n
  data = [U * (gen.wall_fix(rng.standard_normal(g.shape), g, o, b) + mean) for o, b in zip(g.cell_faces, bcs)]
  det = f'{kind} walls={walls} U={U:.3g} mean={mean} {g}'
  rec.case('projection', kind, walls, g.shape, int(np.log10(U)), mean, sample=det)
  scale = U * (1 + mean); S = scale * sum(1 / h for h in g.step)
  data = [np.asarray(d, np.float32).astype(np.float64) for d in data]
  want, _ = project_np(data, bcs, g)
  cgt = 1e-5 if kind == 'cg' else 0.
  with single():
    v = tuple(gen.var(np.asarray(d, np.float32), o, g, b) for d, o, b in zip(data, g.cell_faces, bcs))
    w = v
    for k in range(3):
      w = project(w, kind)
      for u, o in zip(w, v):
        rec.field('projected fields keep their description', u, None, offset=o.offset, grid=g, bc=o.bc, detail=det)
        rec.eq('projected fields keep 32-bit types', str(u.dtype), 'float32', det)
      rec.small('projected fields are free of divergence to rounding', div_np(raw(w), bcs, g), S, 1e-5, detail=f'{det} projection {k + 1}')
      for a, b in zip(raw(w), want):
        rec.close('projection equals the exact projection to rounding', a, b, tol=2e-5 * (k + 1) + 10 * cgt, scale=scale, detail=f'{det} projection {k + 1}')
    if not walls:
      for a, d in zip(raw(w), data): rec.close('projection keeps the mean to rounding', a.mean(), d.mean(), tol=2e-5, scale=scale, detail=det)
    # derivatives of a linear map are the map; directions already free of divergence stay
    T = tuple(gen.var(np.asarray(u.data), u.offset, g, u.bc) for u in w)
    at = v if rng.random() < .5 else jax.tree_util.tree_map(jnp.zeros_like, v)
    d = jax.jvp(lambda a: project(a, kind), (at,), (T,))[1]
    for a, b in zip(raw(d), raw(w)):
      rec.close('derivative along a divergence-free direction is that direction', a, b, tol=4e-5 + 10 * cgt, scale=scale, detail=det)
    c = jax.vjp(lambda a: project(a, kind), at)[1](T)[0]
    ok = [~gen.wall_mask(g, u.offset, u.bc) for u in v]
    for a, b, m in zip(raw(c), raw(w), ok):
      rec.close('derivative along a divergence-free direction is that direction', np.where(m, a, 0), np.where(m, b, 0), tol=4e-5 + 10 * cgt, scale=scale, detail=det + ' reverse')


def suite_collocated(rng, rec, i):
  g = gen.mild_grid(rng, shp=gen.pick(rng, [(8, 8), (16, 12), (9, 7), (7, 7), (6, 8, 5), (32, 32), (4, 6, 5)])); n = g.ndim
  U = float(10. ** rng.uniform(0, 6))
  tight = bool(rng.integers(2))
  s = functools.partial(cpr.solve_cg, rtol=1e-12, atol=0.) if tight else cpr.solve_cg
  det = f'tight={tight} U={U:.3g} {g}'
  rec.case('collocated', tight, g.shape, int(np.log10(U)))
  data = [np.asarray(U * rng.standard_normal(g.shape), np.float32) for _ in range(n)]
  S = U * sum(1 / h for h in g.step)
  want = cproject([d.astype(float) for d in data], g.step)
  with single():
    v = tuple(gen.var(d, g.cell_center, g, PB(n)) for d in data)
    w = v
    for k in range(3):
      w = cpr.projection(w, s)
      for u in w: rec.eq('projected fields keep 32-bit types', str(u.dtype), 'float32', det)
      rec.small('projected fields are free of divergence to rounding', cdiv(raw(w), g.step), S, 6e-6, detail=f'collocated {det} projection {k + 1}')
      for a, b in zip(raw(w), want):
        rec.close('projection equals the exact projection to rounding', a, b, tol=2e-4, scale=U, detail=f'collocated {det} projection {k + 1}')
    d = jax.jvp(lambda a: cpr.projection(a, s), (jax.tree_util.tree_map(jnp.zeros_like, v),), (w,))[1]
    for a, b in zip(raw(d), raw(w)):
      rec.close('derivative along a divergence-free direction is that direction', a, b, tol=2e-4, scale=U, detail='collocated ' + det)


def suite_diffusion(rng, rec, i):
  kind = ['fast_diag', 'cg', 'matmul', 'fft'][i % 4]
  walls = kind in ('fast_diag', 'matmul') and rng.random() < .5
  g = gen.mild_grid(rng, shp=gen.pick(rng, SIZES)); n = g.ndim
  U = float(10. ** rng.uniform(-3, 5)); mean = float(gen.pick(rng, [0., 50.]))
  r = float(10. ** rng.uniform(-4, 2)); nu, dt = r * min(g.step) ** 2 / .1, .1
  if walls:
    _, w, bcs = c19.wall_setup(rng, g.shape)
  else: bcs = [PB(n)] * n
  data = [U * gen.wall_fix(rng.standard_normal(g.shape) + (0 if walls else mean), g, o, b) for o, b in zip(g.cell_faces, bcs)]
  det = f'{kind} walls={walls} U={U:.3g} mean={mean} nu dt/h2={r:.3g} {g}'
  rec.case('diffusion', kind, walls, g.shape, int(np.log10(r)), int(np.log10(U)))
  def run(v):
    if kind == 'cg': return df.solve_cg(v, nu, dt, rtol=1e-6, atol=0.)
    return df.solve_fast_diag(v, nu, dt, **({} if kind == 'fast_diag' else {'implementation': kind}))
  mk = lambda t: tuple(gen.var(np.asarray(d, np.float32).astype(t), o, g, b) for d, o, b in zip(data, g.cell_faces, bcs))
  want = run(mk(np.float64))
  with single():
    got = run(mk(np.float32))
    agree(rec, 'implicit diffusion agrees with double precision', got, want, det, 5e-5, floor=U)
    if not walls:
      for a, d in zip(raw(got), data): rec.close('implicit diffusion keeps the mean to rounding', a.mean(), d.mean(), tol=2e-5, scale=U * (1 + mean), detail=det)


def suite_poisson(rng, rec, i):
  """Pseudo-inverses and functions of separable operators: the null space is recognised at any scale."""
  n = int(rng.integers(1, 4)); shp = tuple(int(x) for x in rng.integers(2, [40, 24, 12][n - 1], n))
  circ = bool(rng.integers(2)); s = float(10. ** rng.uniform(-6, 6))
  ops = []
  for m in shp:
    L = -2 * np.eye(m) + np.eye(m, k=1) + np.eye(m, k=-1)
    if circ: L[0, -1] += 1; L[-1, 0] += 1
    else: L[0, 0] += 1; L[-1, -1] += 1
    ops.append(s * L * float(rng.uniform(.5, 2)))
  impl = gen.pick(rng, ['matmul', 'fft'] + (['rfft'] if shp[-1] % 2 == 0 else []) if circ else ['matmul'])
  U = float(10. ** rng.uniform(-5, 5)); x = np.asarray(U * (rng.standard_normal(shp) + gen.pick(rng, [0., 5.])), np.float32)
  det = f'{shp} circulant={circ} {impl} operator {s:.2g} data {U:.2g}'
  rec.case('poisson', shp, circ, impl, int(np.log10(s)), int(np.log10(U)))
  A = 0
  for a, L in enumerate(ops):
    E = [np.eye(m) for m in shp]; E[a] = L
    A = A + functools.reduce(np.kron, E)
  if A.shape[0] > 600:
    W = [np.linalg.eigh(L) for L in ops]
    lam = sum(w.reshape([-1 if b == a else 1 for b in range(n)]) for a, (w, _) in enumerate(W))
    y = x.astype(float)
    for a, (w, Q) in enumerate(W): y = np.moveaxis(np.tensordot(Q.T, y, (1, a)), 0, a)
    nul = np.abs(lam) < 1e-9 * np.abs(lam).max()
    y = np.where(nul, 0, y / np.where(nul, 1, lam))
    for a, (w, Q) in enumerate(W): y = np.moveaxis(np.tensordot(Q, y, (1, a)), 0, a)
    want = y
  else: want = (np.linalg.pinv(A, rcond=1e-9) @ x.astype(float).ravel()).reshape(shp)
  with single():
    solve = fdg.pseudoinverse(ops, np.float32, hermitian=True, circulant=circ, implementation=impl)
    got = solve(jnp.asarray(x))
    rec.eq('solutions keep 32-bit types', str(got.dtype), 'float32', det)
    rec.close('pseudo-inverse agrees with the exact one', np.asarray(got, float), want, tol=3e-4, scale=np.abs(want).max() + EPS * np.abs(x).max() / s * max(shp) ** 2, detail=det)
    z = solve(jnp.asarray(np.full(shp, U, np.float32)))
    rec.small('constants have no component in the range', np.asarray(z, float), U / s * max(shp) ** 2, 1e-5, detail=det)


def same_sim(rng, kind, nd):
  b, a = twice(rng, lambda r: workloads.simulation(r, kind=kind, ndim=nd, pool=[(8, 12), (16, 9), (6, 8, 5), (24, 24)]))
  return a, b


def momentum(v, g): return [x.mean() for x in raw(v)]


def suite_trajectories(rng, rec, i):
  """Many steps in both precisions from the same state."""
  kind = ['explicit', 'walls', 'implicit', 'collocated', 'les', 'walls_implicit'][i % 6]
  A, b = same_sim(rng, kind, 2 if i % 3 else int(rng.choice([2, 3])) if kind != 'collocated' else 2)
  steps = int(gen.pick(rng, [1, 5, 20]))
  det = f'{kind} {A.convect} {A.stepper} {A.fkind} nu={A.nu} {A.grid.shape} steps={steps}'
  rec.case('trajectories', kind, A.convect, A.stepper, A.fkind, A.nu, A.grid.shape, steps, sample=det)
  with single():
    v = f32(b.v)
    run = jax.jit(fu.repeated(b.step, steps)) if steps > 1 else b.step
    w = run(v)
  V = f64(v)
  want = (jax.jit(fu.repeated(A.step, steps)) if steps > 1 else A.step)(V)
  U = max(np.abs(x).max() for x in raw(V)) + 1e-30
  with single():
    for x in raw(w): rec.ok('states stay finite in single precision', np.isfinite(x).all(), det)
    agree(rec, 'trajectories agree with double precision', w, want, det, 2e-5 * (2 + steps) * (10 if kind == 'collocated' else 1), floor=U)
    bcs = [u.bc for u in v]; g = b.grid
    if kind != 'collocated': d = div_np(raw(w), bcs, g)
    else: d = cdiv(raw(w), g.step)
    if kind in ('explicit', 'walls', 'les'):
      rec.small('states stay free of divergence to rounding', d, U * sum(1 / h for h in g.step), 1e-5, detail=det)
    if A.fkind == 'none' and kind in ('explicit', 'implicit', 'collocated'):
      for a, c in zip(momentum(w, g), momentum(v, g)):
        rec.close('momentum is conserved to rounding', a, c, tol=2e-6 * (steps + 1), scale=U, detail=det)


def suite_uniform(rng, rec, i):
  """Uniform flow of any speed is left unchanged to rounding, for many steps."""
  kind = ['explicit', 'implicit', 'collocated', 'les'][i % 4]
  _, b = same_sim(rng, kind, 2)
  if b.fkind not in ('none', 'les'): return
  g = b.grid; n = g.ndim
  steps = int(gen.pick(rng, [3, 20]))
  U = [float(np.float32(x)) for x in rng.uniform(-1, 1, n) * max(np.abs(x).max() for x in raw(b.v))]
  fac = 1.
  det = f'{kind} {b.convect} {b.stepper} {g.shape} {U} steps={steps}'
  rec.case('uniform', kind, b.convect, b.stepper, g.shape, steps)
  with single():
    v = tuple(gen.var(np.full(g.shape, fac * c, np.float32), u.offset, g, u.bc) for c, u in zip(U, b.v))
    w = jax.jit(fu.repeated(b.step, steps))(v)
    for a, c in zip(raw(w), U):
      rec.close('uniform flow is unchanged to rounding', a, np.full(g.shape, fac * c), tol=4e-6 * (2 + steps), scale=max(abs(x) for x in U) + 1e-30, detail=det)


def suite_initial(rng, rec, i):
  col = bool(i % 2)
  g = gen.mild_grid(rng, shp=gen.pick(rng, [(16, 16), (24, 18), (7, 7), (8, 8), (6, 8, 5), (32, 32)])); n = g.ndim
  k0 = 2 * np.pi / max(h * m for h, m in zip(g.step, g.shape)); k1 = np.pi / max(g.step)
  peak = float(rng.uniform(k0, k1)); U = float(10. ** rng.uniform(-4, 4))
  if col: U = max(U, .1)
  seed = int(rng.integers(1 << 30))
  det = f'collocated={col} U={U:.3g} peak={peak:.3g} {g}'
  rec.case('initial', col, g.shape, int(np.log10(U)))
  with single():
    v = (cic if col else ic).filtered_velocity_field(jax.random.PRNGKey(seed), g, U, peak)
    x = raw(v)
    for u in v: rec.eq('initial fields have 32-bit types', str(u.dtype), 'float32', det)
    if not rec.ok('initial fields are finite', all(np.isfinite(a).all() for a in x), det): return
    S = U * sum(1 / h for h in g.step)
    d = cdiv(x, g.step) if col else div_np(x, [PB(n)] * n, g)
    rec.small('initial fields are free of divergence to rounding', d, S, 1e-4 if col else 4e-6, detail=det)
    rec.close('initial fields reach the requested speed', np.sqrt(sum(a ** 2 for a in x)).max(), U, tol=1e-5, detail=det)
    for a in x: rec.small('initial fields have zero mean to rounding', a.mean(), U, 1e-5, detail=det)


def suite_spectral(rng, rec, i):
  kind = ['ns', 'ks', 'nls', 'ns'][i % 4]
  steps = int(gen.pick(rng, [1, 10, 30]))
  st = gen.pick(rng, ['backward_forward_euler', 'crank_nicolson_rk2', 'crank_nicolson_rk3', 'crank_nicolson_rk4', 'imex_rk_sil3'])
  smooth = bool(rng.integers(2))
  if kind == 'ns':
    g = G.Grid(gen.pick(rng, [(16, 16), (24, 16), (32, 32)]), domain=((0, 2 * np.pi),) * 2)
    forced = bool(rng.integers(2)); nu = float(10. ** rng.uniform(-4, -1)); drag = float(gen.pick(rng, [0., .1]))
    mk = lambda: seq.NavierStokes2D(nu, g, drag=drag, smooth=smooth, forcing_fn=(lambda gr: fo.kolmogorov_forcing(gr, k=2)) if forced else None)
    x = rng.standard_normal(g.shape); dt = .1 * min(g.step) / 10
    to, back = np.fft.rfftn, lambda y: np.fft.irfftn(y, g.shape)
  else:
    n = gen.pick(rng, [16, 32]); g = G.Grid((n,), domain=((0., 2 * np.pi * 4),)); dt = .01
    x = rng.standard_normal((n,)) + (1j * rng.standard_normal((n,)) if kind == 'nls' else 0)
    mk = lambda: (seq.KuramotoSivashinsky if kind == 'ks' else seq.NonlinearSchrodinger)(g, smooth)
    to, back = (np.fft.fft, np.fft.ifft) if kind == 'nls' else (np.fft.rfft, lambda y: np.fft.irfft(y, n))
  x = np.asarray(to(x), np.complex64)
  det = f'{kind} {st} smooth={smooth} {g.shape} steps={steps}'
  rec.case('spectral', kind, st, smooth, g.shape, steps)
  want = fu.repeated(jax.jit(getattr(sts, st)(mk(), dt)), steps)(jnp.asarray(x.astype(np.complex128)))
  with single():
    got = fu.repeated(jax.jit(getattr(sts, st)(mk(), dt)), steps)(jnp.asarray(x))
    rec.eq('spectral states have 32-bit types', str(got.dtype), 'complex64', det)
    rec.close('spectral steps agree with double precision', back(np.asarray(got, np.complex128)), back(np.asarray(want)), tol=2e-5 * (2 + steps), scale=np.abs(back(np.asarray(want))).max(), detail=det)
  if kind == 'ns':
    with single():
      v = su.vorticity_to_velocity(g)(jnp.asarray(x))
    w = su.vorticity_to_velocity(g)(jnp.asarray(x.astype(np.complex128)))
    for a, b in zip(v, w): rec.close('velocity of a vorticity agrees with double precision', np.asarray(a, np.complex128), np.asarray(b), tol=1e-5, scale=np.abs(np.asarray(b)).max(), detail=det)


SUITES = {
    'catalogue': (suite_catalogue, 68, 2000),
    'derivatives': (suite_derivatives, 16, 500),
    'projection': (suite_projection, 28, 1500),
    'collocated': (suite_collocated, 12, 600),
    'diffusion': (suite_diffusion, 16, 800),
    'poisson': (suite_poisson, 24, 2000),
    'trajectories': (suite_trajectories, 18, 600),
    'uniform': (suite_uniform, 8, 300),
    'initial': (suite_initial, 12, 600),
    'spectral': (suite_spectral, 12, 400),
}
REQUIRED = ['single precision gives the double-precision result', 'results of 32-bit inputs have 32-bit types',
            'same locations, grids and boundary conditions in both precisions', 'single precision gives the double-precision derivatives',
            'projected fields are free of divergence to rounding', 'projection equals the exact projection to rounding',
            'derivative along a divergence-free direction is that direction', 'implicit diffusion agrees with double precision',
            'pseudo-inverse agrees with the exact one', 'trajectories agree with double precision', 'uniform flow is unchanged to rounding',
            'initial fields are free of divergence to rounding', 'spectral steps agree with double precision']
