"""C19: jit, vmap, loops and derivatives do not change results."""
import functools
import numpy as np
import jax
import jax.numpy as jnp
from jax_cfd.base import advection as ad, array_utils as au, boundaries as B, diffusion, equations as eqs
from jax_cfd.base import finite_differences as fd, filter_utils, forcings as fo, funcutils as fu
from jax_cfd.base import grids as G, initial_conditions as ic, interpolation as ip, pressure as pr, resize
from jax_cfd.base import subgrid_models as sg, time_stepping as ts
from jax_cfd.collocated import advection as cad, diffusion as cdf, equations as ceq, pressure as cpr
from jax_cfd.spectral import equations as seq, time_stepping as sts, utils as su
from vlib import core, gen, workloads

RULE = ('random inputs for a catalogue of solver components; each is executed directly, compiled, vectorised over a batch, '
        'mapped in a loop, inside scan carries, and under forward and reverse differentiation; outputs (values and static '
        'metadata) must agree with the direct call, derivatives with finite differences and with each other; '
        'distinct by component, mode and configuration')
ASSUMPTIONS = ['float64', 'finite differences are compared away from kinks (limiters, upwind switches) by trying several steps',
               'boundary values and grids are static']

P, Dd, N = gen.P, gen.Dd, gen.N
SHP2 = [(6, 9), (8, 5), (7, 7)]
SHP = SHP2 + [(4, 6, 5)]


def flat(t):
  return [np.asarray(x) for x in jax.tree_util.tree_leaves(t)]


def is_meta(x):
  return hasattr(x, 'offset') or hasattr(x, 'bc')


def meta(t):
  """Static metadata of every field in a tree."""
  out = []
  for x in jax.tree_util.tree_leaves(t, is_leaf=is_meta):
    if hasattr(x, 'bc'): out.append(('variable', tuple(x.array.offset), core.grid_key(x.array.grid), type(x.bc).__name__, x.bc))
    elif hasattr(x, 'offset'): out.append(('array', tuple(x.offset), core.grid_key(x.grid)))
    else: out.append(('leaf',))
  return out


def stack(ts): return jax.tree_util.tree_map(lambda *x: jnp.stack([jnp.asarray(y) for y in x]), *ts)


def take(t, k): return jax.tree_util.tree_map(lambda x: x[k], t)


class Comp:
  """fn(*args); args drawn by sample(rng); smooth: differentiable a.e. in its float inputs; rest: a degenerate input."""

  def __init__(self, fn, sample, det, tol=1e-10, fdtol=2e-6, diff=True, rest=None, reverse=True):
    self.__dict__.update(fn=fn, sample=sample, det=det, tol=tol, fdtol=fdtol, diff=diff, rest=rest, reverse=reverse)


def pbc(n): return B.periodic_boundary_conditions(n)


def wall_setup(rng, shp=None):
  g = gen.mild_grid(rng, shp=shp or gen.pick(rng, SHP)); n = g.ndim
  w = [bool(x) for x in rng.random(n) < .6]
  if not any(w): w[int(rng.integers(n))] = True
  bcs = gen.wall_velocity_bc(rng, n, tuple(w), tangential=False)
  return g, tuple(w), bcs


def wall_v(rng, g, bcs): return tuple(gen.variable(rng, g, o, b, 'normal') for o, b in zip(g.cell_faces, bcs))


def rest_v(g, bcs=None, value=0.):
  bcs = bcs or [pbc(g.ndim)] * g.ndim
  return tuple(gen.var(np.full(g.shape, value), o, g, b) for o, b in zip(g.cell_faces, bcs))


def c_differences(rng):
  g = gen.grid(rng, shp=gen.pick(rng, SHP)); n = g.ndim
  if rng.random() < .5:
    T = gen.bc(rng, n); off = gen.admissible_offset(rng, T.types, (.5,))
  else: T = pbc(n); off = gen.admissible_offset(rng, T.types, (0., .5, 1.))
  def fn(c):
    return {'f': fd.forward_difference(c), 'b': fd.backward_difference(c), 'c': fd.central_difference(c), 'l': fd.laplacian(c),
            'd': diffusion.diffuse(c, .3), 'shift': c.shift(1, 0), 'trim': c.trim_boundary()}
  return Comp(fn, lambda r: (gen.variable(r, g, off, T, 'normal'),), f'{g.shape} {T.types} {off}')


def c_vector_calculus(rng):
  g = gen.grid(rng, shp=gen.pick(rng, SHP)); n = g.ndim
  def fn(v):
    o = {'div': fd.divergence(v), 'grad': fd.gradient_tensor(v).ravel().tolist(), 'curl': fd.curl_2d(v) if n == 2 else fd.curl_3d(v)}
    if n == 2: o['filter'] = filter_utils.filter(lambda k: jnp.exp(-k ** 2 * .01), v[0].data, g)
    return o
  return Comp(fn, lambda r: (gen.periodic_velocity(r, g, 'normal'),), f'{g.shape}')


def c_interpolation(rng):
  g = gen.mild_grid(rng, shp=gen.pick(rng, SHP)); n = g.ndim
  kind = gen.pick(rng, ['linear', 'upwind', 'lax_wendroff', 'van_leer'])
  f = {'linear': ip.linear, 'upwind': ip.upwind, 'lax_wendroff': ip.lax_wendroff,
       'van_leer': ip.apply_tvd_limiter(ip.lax_wendroff, ip.van_leer_limiter)}[kind]
  k = int(rng.integers(n)); dt = float(rng.uniform(.01, .2)) * min(g.step)
  def fn(c, v): return f(c, g.cell_faces[k], v, dt)
  return Comp(fn, lambda r: (gen.variable(r, g, g.cell_center, pbc(n), 'normal'), gen.periodic_velocity(r, g, 'normal')),
              f'{kind} to face {k} {g.shape}',
              rest=lambda r: (gen.var(np.full(g.shape, 2.), g.cell_center, g, pbc(n)), rest_v(g, value=float(r.choice([0., 1.])))))


def c_point(rng):
  g = gen.grid(rng, shp=gen.pick(rng, SHP)); n = g.ndim
  order = int(rng.integers(2)); mode = gen.pick(rng, ['wrap', 'nearest', 'constant'])
  off = gen.admissible_offset(rng, pbc(n).types, (0., .5))
  def fn(c, x): return ip.point_interpolation(x, c, order=order, mode=mode)
  def sample(r):
    x = np.array([[lo + (hi - lo) * r.uniform(.1, .9) for lo, hi in g.domain] for _ in range(1)])[0]
    return (gen.arr(r.standard_normal(g.shape), off, g), jnp.asarray(x))
  return Comp(fn, sample, f'order {order} {mode} {off} {g.shape}')


def c_advection(rng):
  walls = rng.random() < .3
  kind = 'van_leer' if walls else gen.pick(rng, ['linear', 'upwind', 'van_leer', 'limiters', 'convect', 'semilagrangian'])
  if walls:
    g, w, bcs = wall_setup(rng); n = g.ndim
    T = tuple((Dd, N) if x else (P, P) for x in w)
    cb = B.ConstantBoundaryConditions(T, tuple((.7, 0.) if x else (None, None) for x in w))
    vel = lambda r: wall_v(r, g, bcs)
  else:
    g = gen.mild_grid(rng, shp=gen.pick(rng, SHP), lower=kind != 'semilagrangian'); n = g.ndim
    cb = pbc(n); bcs = None; vel = lambda r: gen.periodic_velocity(r, g, 'normal')
  dt = float(rng.uniform(.02, .1)) * min(g.step)
  F = {'linear': ad.advect_linear, 'upwind': ad.advect_upwind, 'van_leer': ad.advect_van_leer,
       'limiters': ad.advect_van_leer_using_limiters, 'semilagrangian': ad.advect_step_semilagrangian}
  def fn(c, v): return ad.convect_linear(v) if kind == 'convect' else F[kind](c, v, dt)
  return Comp(fn, lambda r: (gen.variable(r, g, g.cell_center, cb, 'normal'), vel(r)), f'{kind} walls={walls} {g.shape}',
              rest=lambda r: (gen.var(np.full(g.shape, 2.), g.cell_center, g, cb), rest_v(g, bcs, 0. if walls else float(r.choice([0., 1.])))))


def c_projection(rng):
  walls = rng.random() < .5
  kind = gen.pick(rng, ['fast_diag', 'fast_diag', 'cg', 'fft', 'matmul'])
  if kind == 'fft': walls = False
  shp = gen.pick(rng, SHP if kind != 'cg' else SHP2)
  if walls: g, w, bcs = wall_setup(rng, shp); vel = lambda r: wall_v(r, g, bcs)
  else: g = gen.mild_grid(rng, shp=shp); bcs = None; vel = lambda r: gen.periodic_velocity(r, g, 'normal')
  solve = {'fast_diag': pr.solve_fast_diag, 'cg': functools.partial(pr.solve_cg, rtol=1e-13, atol=1e-14),
           'fft': functools.partial(pr.solve_fast_diag, implementation='fft'),
           'matmul': functools.partial(pr.solve_fast_diag, implementation='matmul')}[kind]
  def fn(v): return {'v': pr.projection(v, solve), 'q': solve(v)} if kind != 'cg' else pr.projection(v, solve)
  return Comp(fn, lambda r: (vel(r),), f'{kind} walls={walls} {g.shape}', tol=1e-7 if kind == 'cg' else 1e-9,
              fdtol=1e-5 if kind == 'cg' else 2e-6, rest=lambda r: (rest_v(g, bcs),))


def c_implicit_diffusion(rng):
  walls = rng.random() < .5
  kind = gen.pick(rng, ['fast_diag', 'fast_diag', 'cg'])
  if kind == 'cg': walls = False
  shp = gen.pick(rng, SHP if kind != 'cg' else SHP2)
  if walls: g, w, bcs = wall_setup(rng, shp); vel = lambda r: wall_v(r, g, bcs)
  else: g = gen.mild_grid(rng, shp=shp); bcs = None; vel = lambda r: gen.periodic_velocity(r, g, 'normal')
  def fn(v, p):
    if kind == 'cg': return diffusion.solve_cg(v, p['nu'], p['dt'], rtol=1e-13, atol=1e-14)
    return diffusion.solve_fast_diag(v, p['nu'], p['dt'])
  m = min(g.step) ** 2
  return Comp(fn, lambda r: (vel(r), {'nu': jnp.asarray(m * r.uniform(.1, 1)), 'dt': jnp.asarray(r.uniform(.2, 1.))}),
              f'{kind} walls={walls} {g.shape}', tol=1e-7 if kind == 'cg' else 1e-9, fdtol=1e-5 if kind == 'cg' else 2e-6,
              rest=lambda r: (rest_v(g, bcs), {'nu': jnp.asarray(.1), 'dt': jnp.asarray(.1)}))


def c_step(rng):
  kind = gen.pick(rng, ['explicit', 'explicit', 'implicit', 'walls', 'les', 'les_implicit'])
  shp = gen.pick(rng, SHP if kind != 'les_implicit' else SHP2)
  if kind == 'walls': g, w, bcs = wall_setup(rng, shp); vel = lambda r: wall_v(r, g, bcs)
  else: g = gen.mild_grid(rng, shp=shp); bcs = None; vel = lambda r: gen.periodic_velocity(r, g, 'normal')
  n = g.ndim
  dt = float(rng.uniform(.02, .06)) * min(g.step)
  conv = gen.pick(rng, list(workloads.CONVECT)) if kind in ('explicit', 'implicit') else 'van_leer'
  st = gen.pick(rng, list(workloads.STEPPERS))
  f = gen.pick(rng, [None, fo.kolmogorov_forcing(g, scale=.7, k=2), fo.linear_forcing(g, -.1)])
  if kind == 'walls' or kind == 'les_implicit': f = None
  solve = gen.pick(rng, [pr.solve_fast_diag, pr.solve_fast_diag, functools.partial(pr.solve_cg, rtol=1e-13, atol=1e-14)])
  cf = workloads.CONVECT[conv](dt)
  steps = int(rng.integers(1, 4)) if kind != 'les_implicit' else 1
  def fn(v, p):
    kw = dict(density=p['rho'], viscosity=p['nu'], dt=dt, grid=g)
    if kind == 'les': s = sg.explicit_smagorinsky_navier_stokes(cs=.15, forcing=f, convect=ad.convect_linear, **kw)
    elif kind == 'les_implicit':
      s = sg.implicit_smagorinsky_navier_stokes(dt=dt, cs=.15, density=1.3, viscosity=.01, grid=g, convect=ad.convect_linear)
    else:
      if f is not None: kw['forcing'] = f
      if cf is not None: kw['convect'] = cf
      if kind == 'implicit': s = eqs.implicit_diffusion_navier_stokes(pressure_solve=solve, **kw)
      else: s = eqs.semi_implicit_navier_stokes(time_stepper=workloads.STEPPERS[st], pressure_solve=solve, **kw)
    return fu.repeated(s, steps)(v)
  cg = solve is not pr.solve_fast_diag or kind == 'les_implicit'
  return Comp(fn, lambda r: (vel(r), {'rho': jnp.asarray(r.uniform(.5, 2)), 'nu': jnp.asarray(min(g.step) ** 2 * r.uniform(.1, .3))}),
              f'{kind} {conv} {st} {"cg" if cg else "fd"} steps={steps} forcing={f is not None} {g.shape}',
              tol=1e-5 if kind == 'les_implicit' else 1e-7 if cg else 1e-9, fdtol=1e-4 if kind == 'les_implicit' else 1e-5,
              diff=kind != 'les_implicit',
              rest=lambda r: (rest_v(g, bcs, 0. if kind == 'walls' else float(r.choice([0., 1.]))), {'rho': jnp.asarray(1.), 'nu': jnp.asarray(.01)}))


def c_les(rng):
  g = gen.mild_grid(rng, shp=gen.pick(rng, SHP)); n = g.ndim
  def fn(v, p):
    return sg.evm_model(v, functools.partial(sg.smagorinsky_viscosity, dt=.1, cs=p))
  return Comp(fn, lambda r: (gen.periodic_velocity(r, g, 'normal'), jnp.asarray(.17)), f'{g.shape}', fdtol=1e-5,
              rest=lambda r: (rest_v(g, value=float(r.choice([0., 1.]))), jnp.asarray(.17)))


def c_forcing(rng):
  g = gen.mild_grid(rng, shp=gen.pick(rng, SHP)); n = g.ndim
  def fn(v):
    o = {'k': fo.kolmogorov_forcing(g, scale=.3, k=3, swap_xy=True)(v), 'l': fo.linear_forcing(g, .4)(v),
         's': fo.sum_forcings(fo.linear_forcing(g, .4), fo.no_forcing(g))(v),
         't': fo.simple_turbulence_forcing(g, constant_magnitude=.5, constant_wavenumber=2, linear_coefficient=-.1)(v)}
    if n == 2: o['f'] = fo.filtered_linear_forcing(0., 4., .3, g)(v)
    return o
  return Comp(fn, lambda r: (gen.periodic_velocity(r, g, 'normal'),), f'{g.shape}')


def c_resize(rng):
  g = gen.mild_grid(rng, shp=gen.pick(rng, [(6, 8), (12, 4), (4, 6, 8)])); n = g.ndim
  dst = G.Grid(tuple(s // 2 for s in g.shape), domain=g.domain)
  def fn(v): return {'arrays': resize.downsample_staggered_velocity(g, dst, tuple(u.data for u in v)), 'fields': resize.downsample_staggered_velocity(g, dst, v)}
  return Comp(fn, lambda r: (gen.periodic_velocity(r, g, 'normal'),), f'{g.shape}')


def c_collocated(rng):
  g = gen.mild_grid(rng, shp=gen.pick(rng, [(6, 9), (7, 7), (5, 7)])); n = 2
  dt = float(rng.uniform(.02, .06)) * min(g.step)
  step = ceq.semi_implicit_navier_stokes(density=1.3, viscosity=.02 * min(g.step) ** 2, dt=dt, grid=g,
                                         pressure_solve=functools.partial(cpr.solve_cg, rtol=1e-13, atol=1e-14))
  def fn(v): return {'conv': cad.convect_linear(v), 'diff': cdf.diffuse(v[0], .3), 'step': step(v)}
  return Comp(fn, lambda r: (gen.periodic_velocity(r, g, 'normal', collocated=True),), f'{g.shape}', tol=1e-7, fdtol=1e-5,
              rest=lambda r: (tuple(gen.var(np.zeros(g.shape), g.cell_center, g, pbc(2)) for _ in range(2)),))


def c_spectral(rng):
  kind = gen.pick(rng, ['ns', 'ns', 'ks', 'burgers', 'nls'])
  st = gen.pick(rng, ['backward_forward_euler', 'crank_nicolson_rk2', 'crank_nicolson_rk3', 'crank_nicolson_rk4', 'imex_rk_sil3'])
  stepper = getattr(sts, st)
  if kind == 'ns':
    g = G.Grid(gen.pick(rng, [(8, 12), (10, 8)]), domain=((0, 2 * np.pi),) * 2)
    eq = seq.NavierStokes2D(.02, g, drag=.1, smooth=bool(rng.integers(2)), forcing_fn=gen.pick(rng, [None, lambda gr: fo.kolmogorov_forcing(gr, k=2)]))
    to = jnp.fft.rfftn; back = jnp.fft.irfftn; m = g.shape
  else:
    n = 16; g = G.Grid((n,), domain=((0, 2 * np.pi * 2),)); m = (n,)
    if kind == 'ks': eq = seq.KuramotoSivashinsky(g, smooth=True)
    elif kind == 'burgers': eq = seq.BurgersEquation(.1, g)
    else: eq = seq.NonlinearSchrodinger(g)
    to, back = (jnp.fft.fft, jnp.fft.ifft) if kind == 'nls' else (jnp.fft.rfft, jnp.fft.irfft)
  steps = int(rng.integers(1, 4))
  step = stepper(eq, .01)
  def fn(x):
    u = to(x if kind != 'nls' else x[0] + 1j * x[1])
    y = fu.repeated(step, steps)((u, 0.) if kind == 'burgers' else u)
    y = back(y[0] if kind == 'burgers' else y)
    return (y.real, y.imag) if kind == 'nls' else y
  return Comp(fn, lambda r: (jnp.asarray(r.standard_normal(m if kind != 'nls' else (2,) + m)),), f'{kind} {st} steps={steps} {m}', fdtol=1e-5,
              rest=lambda r: (jnp.zeros(m if kind != 'nls' else (2,) + m),))


def c_interp1d(rng):
  n = int(rng.integers(3, 9)); x = np.sort(rng.uniform(-2, 2, n)); k = gen.pick(rng, [2, 3])
  fv = gen.pick(rng, ['extrapolate', 'constant_extrapolate', 0.])
  def fn(y, q): return au.interp1d(x, y, axis=0, fill_value=fv)(q)
  return Comp(fn, lambda r: (jnp.asarray(r.standard_normal((n, k))), jnp.asarray(r.uniform(-2.5, 2.5, 4))), f'n={n} fill={fv}')


def c_stable_step(rng):
  g = gen.mild_grid(rng, shp=gen.pick(rng, SHP))
  def fn(v, nu): return eqs.dynamic_time_step(v, .5, nu, g, implicit_diffusion=True)
  return Comp(fn, lambda r: (gen.periodic_velocity(r, g, 'normal'), jnp.asarray(r.uniform(.01, 1.))), f'{g.shape}', diff=False)


def c_boundaries(rng):
  g, w, bcs = wall_setup(rng); n = g.ndim
  T = gen.bc(rng, n, allow=('p', 'd')); off = gen.admissible_offset(rng, T.types, (0., .5, 1.))
  def fn(a, v):
    c = T.impose_bc(a)
    out = {'c': c, 'v': tuple(b.impose_bc(u.array) for b, u in zip(bcs, v)), 'pad': [c.shift(k, ax) for k in (-1, 1) for ax in range(n)],
           'pbc': pr.projection(v)}
    return out
  return Comp(fn, lambda r: (gen.arr(r.standard_normal(g.shape), off, g), wall_v(r, g, bcs)), f'{g.shape} {T} {off} {w}')


def c_tensor(rng):
  g = gen.mild_grid(rng, shp=gen.pick(rng, SHP)); n = g.ndim
  off = gen.admissible_offset(rng, pbc(n).types, (0., .5, 1.))
  def fn(t, c):
    s = (t + t.T) / 2.
    return {'row': t[0, :], 'skew': t[0, n - 1] - 2. * t[n - 1, 0], 'prod': t.dot(s), 'trace': np.trace(t.dot(t)),
            'lap': fd.laplacian(G.GridVariable(t[n - 1, 0], pbc(n))), 'scaled': jax.tree_util.tree_map(lambda a: c * a, -2. * t)}
  def sample(r):
    return (G.GridArrayTensor([[gen.arr(r.standard_normal(g.shape), off, g) for _ in range(n)] for _ in range(n)]), jnp.asarray(r.uniform(.5, 2)))
  return Comp(fn, sample, f'{g.shape} {off}')


CATALOGUE = {k[2:]: v for k, v in list(globals().items()) if k.startswith('c_')}
NAMES = list(CATALOGUE)


def draw(rng, rec, i, tag, names=NAMES):
  name = names[i % len(names)]
  c = CATALOGUE[name](rng)
  rec.case(tag, name, c.det, sample={'component': name, 'configuration': c.det})
  return name, c, f'{name} {c.det}'


def same(rec, mon, got, want, det, tol):
  gt, wt = jax.tree_util.tree_structure(got), jax.tree_util.tree_structure(want)
  rec.ok('same structure and static metadata', gt == wt, lambda: f'{det}: {mon}: {gt} expected {wt}')
  a, b = meta(got), meta(want)
  rec.ok('same locations, grids and boundary conditions', len(a) == len(b) and all(
      p[0] == q[0] and p[1:3] == q[1:3] and (p[0] != 'variable' or (p[3] == q[3] and p[4] == q[4])) for p, q in zip(a, b)),
         lambda: f'{det}: {mon}: {a} expected {b}')
  for x, y in zip(flat(got), flat(want)):
    rec.eq('same dtype', x.dtype, y.dtype, f'{det} {mon}')
    rec.close(mon, x, y, tol=tol, scale=np.abs(y).max() + 1e-12 if y.size else 1, detail=det)


def suite_modes(rng, rec, i):
  name, c, det = draw(rng, rec, i, 'modes')
  xs = [c.sample(rng) for _ in range(3)]
  want = [c.fn(*x) for x in xs]
  jf = jax.jit(c.fn)
  same(rec, 'compiled result equals the direct result', jf(*xs[0]), want[0], det, c.tol)
  same(rec, 'compiled result equals the direct result', jf(*xs[1]), want[1], det + ' (second call)', c.tol)
  bt = stack(xs)
  mode = gen.pick(rng, ['vmap', 'vmap', 'map', 'axis'])
  if mode == 'axis':  # batch in the last axis of every leaf
    moved = jax.tree_util.tree_map(lambda x: jnp.moveaxis(x, 0, -1), bt)
    got = jax.vmap(c.fn, in_axes=-1, out_axes=0)(*moved)
  elif mode == 'map': got = jax.lax.map(lambda a: c.fn(*a), bt)
  else: got = jax.jit(jax.vmap(c.fn))(*bt) if i % 4 else jax.vmap(c.fn)(*bt)
  for k in range(3):
    same(rec, 'batched result equals one direct call per element', take(got, k), want[k], f'{det} {mode} element {k}', c.tol)
  # one argument shared by the batch
  if len(xs[0]) > 1 and rng.random() < .5:
    s = int(rng.integers(len(xs[0])))
    ax = tuple(None if q == s else 0 for q in range(len(xs[0])))
    args = tuple(xs[0][q] if q == s else bt[q] for q in range(len(xs[0])))
    got = jax.vmap(c.fn, in_axes=ax)(*args)
    for k in range(2):
      w = c.fn(*(xs[0][q] if q == s else xs[k][q] for q in range(len(xs[0]))))
      same(rec, 'batched result equals one direct call per element', take(got, k), w, f'{det} shared argument {s}', c.tol)
  rec.events['components executed'] += 1


def isfloat(x): return jnp.issubdtype(jnp.asarray(x).dtype, jnp.floating)


def tree_dot(a, b): return float(sum(np.sum(x * y) for x, y in zip(flat(a), flat(b))))


def rand_like(rng, t): return jax.tree_util.tree_map(lambda x: jnp.asarray(rng.standard_normal(np.shape(x))), t)


def axpy(x, e, t): return jax.tree_util.tree_map(lambda a, b: a + e * b, x, t)


def tangent(rng, args):
  """Random direction that leaves samples lying on walls alone (their value is static)."""
  def one(x):
    if hasattr(x, 'bc') and hasattr(x, 'array'):
      d = rng.standard_normal(x.array.data.shape)
      d = np.where(gen.wall_mask(x.array.grid, x.array.offset, x.bc, d.shape), 0., d)
      return G.GridVariable(G.GridArray(jnp.asarray(d), x.array.offset, x.array.grid), x.bc)
    return jax.tree_util.tree_map(lambda a: jnp.asarray(rng.standard_normal(np.shape(a)) * (1. if np.ndim(a) else abs(float(a)))), x)
  return jax.tree_util.tree_map(one, args, is_leaf=lambda x: hasattr(x, 'bc'))


def suite_derivatives(rng, rec, i):
  name, c, det = draw(rng, rec, i, 'derivatives')
  if not c.diff:
    rec.events['component not differentiated'] += 1; return
  x = c.sample(rng)
  t = tangent(rng, x)
  f = jax.jit(lambda a: jax.tree_util.tree_map(lambda y: y, c.fn(*a)))
  shp = jax.eval_shape(lambda a: c.fn(*a), x)
  w = rand_like(rng, shp)
  def both(p, q, w):
    fn = lambda a: c.fn(*a)
    o = jax.jvp(fn, (p,), (q,))
    return o + ((jax.vjp(fn, p)[1](w)[0],) if c.reverse else ())
  y, dy, *gx = jax.jit(both)(x, t, w)
  same(rec, 'primal result under differentiation', y, f(x), det, c.tol)
  D = np.concatenate([z.ravel() for z in flat(dy)])
  rec.ok('derivatives are finite', np.isfinite(D).all(), f'{det}: forward derivative is not finite')
  sc = np.abs(D).max() + 1e-9
  best = None
  for e in (1e-4, 1e-5, 1e-6, 1e-3):
    d4 = [np.concatenate([z.ravel() for z in flat(f(axpy(x, k * e, t)))]) for k in (-2, -1, 1, 2)]
    F = (d4[0] - 8 * d4[1] + 8 * d4[2] - d4[3]) / (12 * e)
    err = np.abs(F - D) / sc
    noise = np.abs(np.stack(d4)).max() * 1e-15 / e / sc
    # samples whose stencil crosses a kink are judged with another step
    best = err if best is None else np.minimum(best, err)
    if best.max() < c.fdtol: break
  rec.events['finite differences compared'] += int(D.size)
  rec.ok('derivatives agree with finite differences', best.max() < max(c.fdtol, 50 * noise), lambda: f'{det}: relative difference {best.max():.3g} at {int(best.argmax())}')
  if not c.reverse: return
  (gx,) = gx
  g = np.concatenate([z.ravel() for z in flat(gx)])
  rec.ok('derivatives are finite', np.isfinite(g).all(), f'{det}: reverse derivative is not finite')
  rec.ok('gradients have the structure of the input', jax.tree_util.tree_structure(gx) == jax.tree_util.tree_structure(x), f'{det}')
  a, b = tree_dot(w, dy), tree_dot(gx, t)
  s = np.linalg.norm(np.concatenate([z.ravel() for z in flat(w)])) * np.linalg.norm(D) + 1e-12
  rec.ok('forward and reverse derivatives agree', abs(a - b) <= max(c.tol, 1e-10) * 20 * s, lambda: f'{det}: {a} against {b} (scale {s})')
  # compiled gradient
  loss = lambda a: sum(jnp.sum(p * q) for p, q in zip(jax.tree_util.tree_leaves(c.fn(*a)), jax.tree_util.tree_leaves(w)))
  mode = gen.pick(rng, ['direct grad', 'vmap grad', 'remat', '-', '-'])
  if mode == '-': return
  if mode == 'direct grad': gj = jax.grad(loss)(x)
  elif mode == 'vmap grad': gj = take(jax.jit(jax.vmap(jax.grad(loss)))(stack([x, c.sample(rng)])), 0)
  else: gj = jax.jit(jax.grad(jax.checkpoint(loss)))(x)
  gsc = np.abs(g).max() + 1e-12
  for p, q in zip(flat(gj), flat(gx)):
    rec.close('gradients do not depend on compilation or batching', p, q, tol=max(c.tol, 1e-10) * 10, scale=gsc, detail=f'{det} {mode}')


def suite_rest(rng, rec, i):
  """Uniform and resting states: limiters, square roots and solves still have finite derivatives."""
  names = [n for n in NAMES if n in ('interpolation', 'advection', 'projection', 'implicit_diffusion', 'step', 'les', 'collocated', 'spectral')]
  name, c, det = draw(rng, rec, i, 'rest', names)
  x = c.rest(rng)
  y = c.fn(*x)
  for z in flat(y): rec.ok('results are finite at uniform states', np.isfinite(z).all(), f'{det}')
  same(rec, 'compiled result equals the direct result', jax.jit(c.fn)(*x), y, det, c.tol)
  if not c.diff: return
  w = rand_like(rng, y)
  both = lambda p, q, w: (jax.jvp(lambda a: c.fn(*a), (p,), (q,))[1], jax.vjp(lambda a: c.fn(*a), p)[1](w)[0])
  dy, gx = jax.jit(both)(x, tangent(rng, x), w)
  for z in flat(dy): rec.ok('derivatives are finite at uniform states', np.isfinite(z).all(), f'{det} forward')
  for z in flat(gx): rec.ok('derivatives are finite at uniform states', np.isfinite(z).all(), f'{det} reverse')


def suite_trajectories(rng, rec, i):
  """Derivatives and batches through whole trajectories, with and without rematerialisation."""
  kind = gen.pick(rng, ['periodic', 'walls'])
  if kind == 'walls': g, w, bcs = wall_setup(rng, gen.pick(rng, SHP2)); vel = lambda: wall_v(rng, g, bcs)
  else: g = gen.mild_grid(rng, shp=gen.pick(rng, SHP2)); vel = lambda: gen.periodic_velocity(rng, g, 'normal')
  dt = .03 * min(g.step); n, inner = int(rng.integers(1, 3)), int(rng.integers(1, 3))
  step = gen.pick(rng, [eqs.semi_implicit_navier_stokes, eqs.implicit_diffusion_navier_stokes])(
      density=1., viscosity=.05 * min(g.step) ** 2, dt=dt, grid=g, convect=workloads.CONVECT['van_leer'](dt))
  rec.case('trajectory', kind, g.shape, n, inner)
  det = f'{kind} {g.shape} outer={n} inner={inner}'
  v = vel()
  first = bool(rng.integers(2))
  tr = fu.trajectory(fu.repeated(step, inner), n, start_with_input=first)
  def hand(v):
    frames = []
    for _ in range(n):
      if first: frames.append(v)
      for _ in range(inner): v = step(v)
      if not first: frames.append(v)
    return v, stack(frames)
  want = hand(v)
  same(rec, 'compiled result equals the direct result', jax.jit(tr)(v), want, det, 1e-9)
  vs = [v, vel(), vel()]
  got = jax.jit(jax.vmap(tr))(stack(vs))
  for k in range(3): same(rec, 'batched result equals one direct call per element', take(got, k), hand(vs[k]), f'{det} element {k}', 1e-9)
  loss = lambda fn: lambda a: sum(jnp.sum(jnp.asarray(x) ** 2) for x in jax.tree_util.tree_leaves(fn(a)))
  ga, gb = jax.jit(lambda a: (jax.grad(loss(tr))(a), jax.grad(loss(hand))(a)))(v)
  sc = max(np.abs(x).max() for x in flat(gb)) + 1e-12
  for p, q in zip(flat(ga), flat(gb)): rec.close('gradients do not depend on compilation or batching', p, q, tol=1e-9, scale=sc, detail=det)
  gc = jax.jit(jax.grad(loss(fu.trajectory(jax.checkpoint(fu.repeated(step, inner)), n, start_with_input=first))))(v)
  for p, q in zip(flat(gc), flat(gb)): rec.close('gradients do not depend on compilation or batching', p, q, tol=1e-9, scale=sc, detail=det + ' checkpoint')
  # state with static metadata as a loop carry of while and fori loops
  a = jax.lax.fori_loop(0, n, lambda k, s: step(s), v); b = v
  for _ in range(n): b = step(b)
  same(rec, 'loop result equals the direct result', a, b, det, 1e-9)
  c = jax.lax.while_loop(lambda s: s[0] < n, lambda s: (s[0] + 1, step(s[1])), (0, v))[1]
  same(rec, 'loop result equals the direct result', c, b, det, 1e-9)
  # the carry is a pytree with equal static parts, so conditionals accept it as well
  d = jax.lax.cond(jnp.asarray(True), step, lambda s: s, v)
  same(rec, 'loop result equals the direct result', d, step(v), det, 1e-9)


def suite_static(rng, rec, i):
  """One compiled function called with inputs that differ only in static parts never reuses the wrong program."""
  shp = gen.pick(rng, SHP2); n = 2
  def ops(c): return (fd.laplacian(c), fd.forward_difference(c), c.shift(1, 0), c, jnp.stack(c.grid.mesh(c.offset)) * c.array.data)
  fn = jax.jit(ops)
  gs = [gen.grid(rng, shp=shp) for _ in range(2)]
  gs.append(G.Grid(shp, domain=tuple((lo, hi) for lo, hi in reversed([(0., 1.), (0., 1.)]))))
  gs.append(G.Grid(shp, domain=tuple((lo + 1, hi + 1) for lo, hi in gs[2].domain)))
  val = float(np.round(rng.normal(), 2))
  bcs = [pbc(n), B.dirichlet_boundary_conditions(n), B.dirichlet_boundary_conditions(n, ((val, 0.), (0., val))),
         B.dirichlet_boundary_conditions(n, ((0., val), (0., val))), B.neumann_boundary_conditions(n),
         B.neumann_boundary_conditions(n, ((val, 0.), (0., val))), B.channel_flow_boundary_conditions(n),
         B.periodic_and_neumann_boundary_conditions(), B.periodic_and_dirichlet_boundary_conditions()]
  data = rng.standard_normal(shp)
  rec.case('static', shp, val)
  combos = [(g, b, o) for g in gs for b in bcs for o in [(.5, .5), (1., .5), (.5, 0.)]
            if all(x == .5 or N not in t for x, t in zip(o, b.types))]
  for k in rng.permutation(len(combos))[:24]:
    g, b, o = combos[k]
    c = gen.var(data, o, g, b)
    same(rec, 'compiled code never confuses grids, offsets or boundary conditions', fn(c), ops(c),
         f'{g} {o} {b}', 1e-11)
  # flattening and unflattening is the identity, whatever the leaves are
  for k in rng.permutation(len(combos))[:4]:
    g, b, o = combos[k]
    c = gen.var(data, o, g, b)
    l, t = jax.tree_util.tree_flatten(c)
    rec.eq('fields have one leaf', len(l), 1, str(c))
    d = jax.tree_util.tree_unflatten(t, [np.full(3, 7)])
    rec.ok('unflattening keeps whatever leaf it is given', isinstance(d.array.data, np.ndarray) and d.array.data.shape == (3,), str(d))
    e = jax.tree_util.tree_unflatten(t, [None])
    rec.ok('unflattening keeps whatever leaf it is given', e.array.data is None, str(e))
    rec.ok('same locations, grids and boundary conditions', meta(d) == meta(c), lambda: f'{meta(d)} {meta(c)}')
    rec.ok('structures of equal static parts are equal and hash alike', jax.tree_util.tree_structure(gen.var(data, o, G.Grid(g.shape, domain=g.domain), b)) == t
           and hash(jax.tree_util.tree_structure(gen.var(data + 1, o, G.Grid(g.shape, domain=g.domain), b))) == hash(t), str(c))
    g2, b2, o2 = combos[int(rng.integers(len(combos)))]
    if (core.grid_key(g2), o2) != (core.grid_key(g), o) or b2 != b:
      rec.ok('structures of different static parts differ', jax.tree_util.tree_structure(gen.var(data, o2, g2, b2)) != t, f'{g} {o} {b} / {g2} {o2} {b2}')


def suite_random(rng, rec, i):
  """Initial conditions are pure functions of their key, under every transformation."""
  g = gen.mild_grid(rng, shp=gen.pick(rng, [(8, 8), (12, 8), (6, 6, 4)]), lower=False)
  mv, pk = float(rng.uniform(.5, 4)), float(rng.uniform(1, 3))
  rec.case('initial', g.shape)
  def fn(key): return ic.filtered_velocity_field(key, g, mv, pk)
  keys = [jax.random.PRNGKey(int(rng.integers(1 << 30))) for _ in range(3)]
  want = [fn(k) for k in keys]
  det = f'{g.shape} max velocity {mv} peak {pk}'
  same(rec, 'compiled result equals the direct result', jax.jit(fn)(keys[0]), want[0], det, 1e-9)
  got = jax.vmap(fn)(jnp.stack(keys))
  for k in range(3): same(rec, 'batched result equals one direct call per element', take(got, k), want[k], f'{det} element {k}', 1e-9)
  same(rec, 'the same key gives the same field', fn(keys[1]), want[1], det, 0.)
  rec.ok('different keys give different fields', not np.allclose(flat(want[0])[0], flat(want[1])[0]), det)
  gk = jax.vmap(lambda m: ic.filtered_velocity_field(keys[0], g, m, pk))(jnp.asarray([mv, 2 * mv]))
  for a, b in zip(flat(take(gk, 0)), flat(take(gk, 1))): rec.close('fields scale with the requested speed', b, 2 * a, tol=1e-9, detail=det)


SUITES = {
    'modes': (suite_modes, 36, 1500),
    'derivatives': (suite_derivatives, 36, 1200),
    'rest': (suite_rest, 16, 300),
    'trajectories': (suite_trajectories, 3, 120),
    'static': (suite_static, 2, 40),
    'random': (suite_random, 1, 40),
}
REQUIRED = ['compiled result equals the direct result', 'batched result equals one direct call per element', 'same locations, grids and boundary conditions',
            'derivatives agree with finite differences', 'forward and reverse derivatives agree', 'derivatives are finite',
            'derivatives are finite at uniform states', 'gradients do not depend on compilation or batching', 'loop result equals the direct result',
            'compiled code never confuses grids, offsets or boundary conditions']
