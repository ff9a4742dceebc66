"""C03: field arithmetic is array arithmetic and never mixes locations or grids."""
import operator
import pickle
import copy
import numpy as np
import jax
import jax.numpy as jnp
from jax_cfd.base import boundaries as B, grids as G, finite_differences as fd
from vlib import gen, monitors, workloads

RULE = ('random expression trees over fields (arithmetic operators, numpy ufuncs, scalars, arrays, where, '
        'applied functions, tensors) with consistent or deliberately inconsistent location / grid / '
        'boundary conditions; distinct by (operator, operand kinds, ndim, inconsistency)')
ASSUMPTIONS = ['float64', 'the == operator between fields is dataclass equality and is not claimed']

BIN = [operator.add, operator.sub, operator.mul, operator.truediv, operator.pow, operator.mod,
       operator.floordiv, np.add, np.subtract, np.multiply, np.divide, np.maximum, np.minimum,
       np.arctan2, np.hypot, np.power, np.copysign, np.fmod, np.logaddexp, np.greater, np.less_equal,
       operator.lt, operator.ge, np.equal, np.not_equal]
UN = [operator.neg, operator.pos, abs, np.exp, np.sin, np.cos, np.sqrt, np.square, np.tanh, np.abs,
      np.log1p, np.sign, np.floor, np.ceil, np.isfinite, np.reciprocal, np.negative, np.arctan]


def mk(rng, g, off, positive=False):
  a = gen.array(rng, g.shape, 'normal')
  if positive:
    a = np.abs(a) + .5
  return a, gen.arr(a, off, g)


def rand_off(rng, nd):
  return tuple(float(x) for x in rng.choice([0., .5, 1., -.5, 1.5], size=nd))


def s_ops(rng, rec, i):
  g = gen.grid(rng)
  off = rand_off(rng, g.ndim)
  f = BIN[i % len(BIN)]
  pos = f in (operator.pow, np.power, operator.mod, operator.floordiv, np.fmod, operator.truediv, np.divide)
  a, A = mk(rng, g, off, pos)
  b, Bq = mk(rng, g, off, pos)
  s = float(abs(rng.normal()) + .5)
  rec.case(getattr(f, '__name__', str(f)), g.ndim)
  for got, want in ((f(A, Bq), f(a, b)), (f(A, s), f(a, s)), (f(s, A), f(s, a)),
                    (f(A, jnp.asarray(b)), f(a, b)), (f(A, b), f(a, b))):
    rec.field('binary', got, np.asarray(want), offset=off, grid=g, tol=1e-12,
              scale=np.abs(np.asarray(want, float)).max() + 1, detail=f'{f}')
    rec.ok('binary', isinstance(got, G.GridArray), f'{f}')
  f = UN[i % len(UN)]
  a, A = mk(rng, g, off, True)
  rec.case(getattr(f, '__name__', str(f)), g.ndim, 'unary')
  rec.field('unary', f(A), np.asarray(f(a)), offset=off, grid=g, tol=1e-12, scale=np.abs(a).max() ** 2 + 10,
            detail=f'{f}')
  q = np.divmod(A, .7)
  for x, y in zip(q, np.divmod(a, .7)):
    rec.field('multi', x, y, offset=off, grid=g, tol=1e-11, scale=10)


def s_reject(rng, rec, i):
  """Every mixture of locations or grids must raise."""
  g = gen.grid(rng)
  off = rand_off(rng, g.ndim)
  k = ['offset', 'domain', 'shape', 'one-axis-offset', 'lower', 'offset-slight', 'domain-slight', 'lower-slight'][i % 8]
  f = BIN[int(rng.integers(len(BIN)))]
  a, A = mk(rng, g, off, True)
  if k == 'offset':
    o2 = tuple(o + .5 for o in off); g2 = g
  elif k == 'one-axis-offset':
    ax = int(rng.integers(g.ndim))
    o2 = tuple(o + (float(gen.pick(rng, [-1, .5, 1, .25])) if j == ax else 0) for j, o in enumerate(off)); g2 = g
  elif k == 'offset-slight':
    ax = int(rng.integers(g.ndim)); e = float(gen.pick(rng, [1e-3, -1e-3, .1])); o2 = tuple(o + e * (j == ax) for j, o in enumerate(off)); g2 = g
  else:
    o2 = off
    d = list(g.domain); ax = int(rng.integers(g.ndim)); e = g.step[ax] * float(gen.pick(rng, [1e-3, 1e-6, .1]))
    if k == 'domain-slight':
      d[ax] = (d[ax][0], d[ax][1] + e); g2 = G.Grid(g.shape, domain=d)
    elif k == 'lower-slight':
      d[ax] = (d[ax][0] + e, d[ax][1] + e); g2 = G.Grid(g.shape, domain=d)
    elif k == 'domain':
      d[ax] = (d[ax][0], d[ax][1] * 1.5 + 1); g2 = G.Grid(g.shape, domain=d)
    elif k == 'lower':
      d[ax] = (d[ax][0] + 1.0, d[ax][1] + 1.0); g2 = G.Grid(g.shape, domain=d)
    else:
      sh = list(g.shape); sh[ax] *= 2; g2 = G.Grid(sh, domain=g.domain)
  Bq = gen.arr(np.abs(gen.array(rng, g.shape, 'normal')) + .5, o2, g2)
  exc = G.InconsistentOffsetError if 'offset' in k else G.InconsistentGridError
  rec.case('reject', k, g.ndim, getattr(f, '__name__', str(f)))
  rec.raises('reject', lambda: f(A, Bq), exc, f'{f} {k}')
  rec.raises('reject', lambda: f(Bq, A), exc, f'{f} {k}')
  rec.raises('reject', lambda: G.where(A > 0, A, Bq), exc, f'where {k}')
  rec.raises('reject', lambda: G.applied(jnp.add)(A, Bq), exc, f'applied {k}')
  rec.raises('reject', lambda: G.applied(lambda a, *, b: a + b)(A, b=Bq), exc, f'applied kw {k}')
  rec.raises('reject', lambda: (G.consistent_offset if 'offset' in k else G.consistent_grid)(A, A, Bq), exc)
  p = B.periodic_boundary_conditions(g.ndim)
  pv = [G.GridVariable(x, p) for x in (A, Bq)]
  if 'offset' in k:
    rec.raises('reject', lambda: G.consistent_offset(*pv), exc)
  else:
    rec.raises('reject', lambda: G.consistent_grid(*pv), exc)
    if g.ndim > 1:
      rec.raises('reject', lambda: fd.divergence([pv[0]] * (g.ndim - 1) + [pv[1]]), exc, 'divergence')
  q = B.dirichlet_boundary_conditions(g.ndim, ((0.0, 1.0 + float(rng.random())),) * g.ndim)
  q0 = B.dirichlet_boundary_conditions(g.ndim)
  for x, y in ((p, q), (q, q0), (p, q0)):
    rec.raises('reject', lambda: G.unique_boundary_conditions(G.GridVariable(A, x), G.GridVariable(A, y)),
               G.InconsistentBoundaryConditionsError)
  rec.eq('unique', G.unique_boundary_conditions(G.GridVariable(A, q), G.GridVariable(Bq, q)), q)
  rec.eq('unique', G.consistent_offset(A, A), off)
  rec.eq('unique', G.consistent_grid(A, A), g)
  rec.raises('reject', lambda: G.applied(jnp.exp)(G.GridVariable(A, p)), ValueError, 'applied(GridVariable)')
  # combining a field with an arbitrary object is not silently accepted
  rec.raises('reject', lambda: A + 'x', TypeError)
  rec.raises('reject', lambda: A + [1.] * 3, TypeError, 'a list')
  rec.raises('reject', lambda: np.add(A, object()), TypeError, 'an object')
  rec.raises('reject', lambda: np.add.reduce(A), TypeError, 'a reduction, which has no location')
  rec.raises('reject', lambda: np.add.outer(A, A), TypeError, 'an outer product')


def s_applied(rng, rec, i):
  g = gen.grid(rng)
  off = rand_off(rng, g.ndim)
  a, A = mk(rng, g, off); b, Bq = mk(rng, g, off); m = a > 0
  rec.case('applied', g.ndim, off)
  rec.field('applied', G.where(A > 0, A, Bq), np.where(m, a, b), offset=off, grid=g, tol=1e-15)
  rec.field('applied', G.where(A > 0, A, 2.5), np.where(m, a, 2.5), offset=off, grid=g, tol=1e-15)
  rec.field('applied', G.applied(lambda x, y, k: x * 2 + y * k)(A, Bq, k=3.0), a * 2 + b * 3, offset=off, grid=g, tol=1e-13)
  rec.field('applied', G.applied(jnp.clip)(A, -1, 1), np.clip(a, -1, 1), offset=off, grid=g, tol=1e-15)
  offs = [rand_off(rng, g.ndim) for _ in range(int(rng.integers(1, 4)))]
  got = G.averaged_offset(*[gen.arr(a, o, g) for o in offs])
  rec.ok('avg-offset', np.allclose(got, np.mean(offs, axis=0)) and len(got) == g.ndim, f'{offs} {got}')
  got = G.control_volume_offsets(A)
  for j in range(g.ndim):
    want = [o + (.5 if k == j else 0) for k, o in enumerate(off)]
    rec.ok('cv-offset', np.allclose(got[j], want), f'{off} {got}')
  rec.eq('cv-offset', len(got), g.ndim)


def s_tree(rng, rec, i):
  """Flatten / rebuild / transform keep values, location, grid, boundary conditions."""
  g = gen.grid(rng)
  bc = gen.bc(rng, g.ndim)
  offs = [rand_off(rng, g.ndim) for _ in range(2)]
  a, b = gen.array(rng, g.shape), gen.array(rng, g.shape)
  tree = {'u': gen.var(a, offs[0], g, bc), 'v': (gen.arr(b, offs[1], g), 3.0)}
  leaves, td = jax.tree_util.tree_flatten(tree)
  rec.case('tree', g.ndim, bc.types, offs)
  rec.eq('tree', len(leaves), 3)
  def check(t, f=lambda x: x, name='tree'):
    rec.field(name, t['u'], f(a), offset=offs[0], grid=g, bc=bc, tol=1e-13, scale=np.abs(a).max() * 4 + 4)
    rec.ok(name, isinstance(t['u'], G.GridVariable) and isinstance(t['v'][0], G.GridArray))
    rec.field(name, t['v'][0], f(b), offset=offs[1], grid=g, tol=1e-13, scale=np.abs(b).max() * 4 + 4)
  check(jax.tree_util.tree_unflatten(td, leaves))
  check(jax.tree.map(lambda x: x * 2 + 1, tree), lambda x: x * 2 + 1, 'tree.map')
  check(jax.jit(lambda t: jax.tree.map(lambda x: x + 1, t))(tree), lambda x: x + 1, 'tree.jit')
  check(copy.deepcopy(tree), name='tree.copy')
  n = 3
  st = jax.tree.map(lambda *x: jnp.stack(x), *[jax.tree.map(lambda x: x * (k + 1), tree) for k in range(n)])
  out = jax.vmap(lambda t: jax.tree.map(lambda x: x - 1, t))(st)
  for k in range(n):
    check(jax.tree.map(lambda x: x[k], out), lambda x: x * (k + 1) - 1, 'tree.vmap')
  fin, ys = jax.lax.scan(lambda c, _: (jax.tree.map(lambda x: x * .5, c), c), tree, None, length=2)
  check(fin, lambda x: x * .25, 'tree.scan')
  check(jax.tree.map(lambda x: x[1], ys), lambda x: x * .5, 'tree.scan')
  # structures of fields with different metadata must not be identified
  o2 = list(offs[0]); o2[0] += .5
  alt = {'u': gen.var(a, tuple(o2), g, bc), 'v': tree['v']}
  rec.ok('tree.distinct', jax.tree_util.tree_structure(alt) != td, 'offset not part of the structure')
  g2 = G.Grid(g.shape, domain=tuple((lo, up + 1) for lo, up in g.domain))
  alt = {'u': gen.var(a, offs[0], g2, bc), 'v': tree['v']}
  rec.ok('tree.distinct', jax.tree_util.tree_structure(alt) != td, 'grid not part of the structure')
  b2 = B.ConstantBoundaryConditions(bc.types, tuple((7.0, 9.0) for _ in bc.types))
  alt = {'u': gen.var(a, offs[0], g, b2), 'v': tree['v']}
  rec.ok('tree.distinct', jax.tree_util.tree_structure(alt) != td, 'bc not part of the structure')
  # the derivative of a field expression is itself a field with the same metadata
  gr = jax.grad(lambda t: jnp.sum(t['u'].data ** 2) + jnp.sum(jnp.sin(t['v'][0].data)))(tree)
  rec.field('tree.grad', gr['u'], 2 * a, offset=offs[0], grid=g, bc=bc, tol=1e-12)
  rec.field('tree.grad', gr['v'][0], np.cos(b), offset=offs[1], grid=g, tol=1e-12)


def s_tensor(rng, rec, i):
  g = gen.grid(rng, shp=gen.pick(rng, [(6, 9), (8, 5), (4, 6, 5)]))
  nd = g.ndim
  off = rand_off(rng, nd)
  a = np.stack([np.stack([gen.array(rng, g.shape, 'normal') for _ in range(nd)]) for _ in range(nd)])
  T = G.GridArrayTensor([[gen.arr(a[p][q], off, g) for q in range(nd)] for p in range(nd)])
  rec.case('tensor', nd, off)
  def chk(t, want, name):
    want = np.asarray(want)
    for p in range(nd):
      for q in range(nd):
        rec.field(name, t[p, q], want[p, q], offset=off, grid=g, tol=1e-12, scale=np.abs(a).max() ** 2 * nd + 1)
  at = np.swapaxes(a, 0, 1)
  chk(T, a, 'tensor'); chk(T.T, at, 'tensor'); chk((T + T.T) / 2., (a + at) / 2, 'tensor.sym')
  chk(-2 * T, -2 * a, 'tensor')
  chk(T.dot(T), np.einsum('pr...,rq...->pq...', a, a), 'tensor.dot')
  rec.field('tensor.trace', np.trace(T), np.trace(a), offset=off, grid=g, tol=1e-12, scale=np.abs(a).max() * nd)
  leaves, td = jax.tree_util.tree_flatten(T)
  rec.eq('tensor.tree', len(leaves), nd * nd)
  R = jax.tree_util.tree_unflatten(td, leaves)
  rec.ok('tensor.tree', isinstance(R, G.GridArrayTensor) and R.shape == (nd, nd))
  chk(R, a, 'tensor.tree')
  chk(jax.tree.map(lambda x: x * 3, T), a * 3, 'tensor.tree')
  chk(jax.jit(lambda t: jax.tree.map(lambda x: x + 1, t))(T), a + 1, 'tensor.tree')
  rt = lambda t: jax.tree_util.tree_unflatten(*reversed(jax.tree_util.tree_flatten(t)))
  chk(rt(T.T), at, 'tensor.tree')                                            # views: transposed, reversed
  chk(jax.jit(lambda t: t)(T.T), at, 'tensor.tree'); chk(rt(T[::-1]), a[::-1], 'tensor.tree'); chk(rt(T[:, ::-1]), a[:, ::-1], 'tensor.tree')
  cut = rt(T[1:, :-1].view(G.GridArrayTensor)); rec.eq('tensor.tree', cut.shape, (nd - 1, nd - 1))   # sub-tensors, rows
  for p in range(nd - 1):
    for q in range(nd - 1): rec.field('tensor.tree', cut[p, q], a[p + 1, q], offset=off, grid=g, tol=0, scale=1)
  wide = rt(G.GridArrayTensor([[gen.arr(a[p][q], off, g) for q in range(nd)] for p in range(nd - 1)]).T); rec.eq('tensor.tree', wide.shape, (nd, nd - 1))
  for p in range(nd):
    for q in range(nd - 1): rec.field('tensor.tree', wide[p, q], a[q][p], offset=off, grid=g, tol=0, scale=1)


def s_broadcast(rng, rec, i):
  """dtype, shape and data accessors."""
  g = gen.grid(rng)
  off = rand_off(rng, g.ndim)
  dt = gen.pick(rng, [np.float32, np.float64, np.int32, np.complex128])
  d = (gen.array(rng, g.shape, 'normal') * 4).astype(dt)
  A = G.GridArray(jnp.asarray(d), off, g)
  V = G.GridVariable(A, B.periodic_boundary_conditions(g.ndim))
  rec.case('acc', str(dt), g.ndim)
  for x in (A, V):
    rec.ok('accessor', x.dtype == dt and x.shape == g.shape and tuple(x.offset) == off and x.grid == g)
    rec.close('accessor', x.data, d, tol=0, scale=1)
  r = A + A
  rec.ok('accessor', r.dtype == (d + d).dtype, f'{dt} {r.dtype}')
  rec.ok('accessor', (A * 2).dtype == jnp.asarray(d).dtype, 'python scalar must not promote')
  k = int(rng.integers(0, 3)) - 1
  rec.field('accessor', V.shift(0, 0), d, offset=off, grid=g, tol=0, scale=1)


SUITES = {
    'ops': (s_ops, 75, 900),
    'reject': (s_reject, 60, 600),
    'applied': (s_applied, 20, 300),
    'tree': (s_tree, 24, 240),
    'tensor': (s_tensor, 15, 200),
    'accessors': (s_broadcast, 16, 150),
}
REQUIRED = ['binary', 'unary', 'multi', 'reject', 'applied', 'tree', 'tree.jit', 'tree.vmap', 'tree.scan',
            'tree.distinct', 'tensor.dot', 'tensor.tree', 'accessor']
