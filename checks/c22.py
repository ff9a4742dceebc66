"""C22: learned stencils satisfy their accuracy constraints whatever the network says."""
import functools
import itertools
import math
import haiku as hk
import numpy as np
import jax
import jax.numpy as jnp
from jax_cfd.base import boundaries as B, grids as G, interpolation as ip
from jax_cfd.ml import advections as ma, interpolations as mi, layers, layers_util as lu
from checks import c23
from vlib import gen

RULE = ('random stencils, shifts, derivative orders, accuracies and step sizes with random, very large and zero logits; the produced '
        'coefficients are applied to exact cell averages (or point values) of every monomial up to the promised degree; learned '
        'interpolations run on random velocities with random maps standing in for the network, in every fusing/tiling option; '
        'distinct by stencil, orders, accuracy, offsets, option')
ASSUMPTIONS = ['float64 (float32 for the 1x1-convolution option, which is float32 by construction)', 'equal grid steps along all axes (others '
               'are refused)', 'periodic domains', 'constraining with a convolution needs a tile layout; fused patches need equal stencil shapes']

FV, FD = lu.Method.FINITE_VOLUME, lu.Method.FINITE_DIFFERENCE


def moment(x, m, method, h):
  """Cell average (or point value) of t**m over cells centred on x."""
  x = np.asarray(x)
  return x ** m if method is FD else ((x + h / 2) ** (m + 1) - (x - h / 2) ** (m + 1)) / (h * (m + 1))


def exps(deg, nd):
  return [e for e in itertools.product(range(deg + 1), repeat=nd) if sum(e) <= deg]


def judge(rec, mon, coef, stencils, method, orders, acc, h, detail):
  """Coefficients (.., prod sizes) exact on every monomial of total degree <= acc + sum(orders) - 1."""
  nd = len(stencils); c = np.asarray(coef).reshape(np.shape(coef)[:-1] + tuple(len(s) for s in stencils))
  worst = 0.
  for e in exps(acc + sum(orders) - 1, nd):
    m = [moment(s, k, method, h) for s, k in zip(stencils, e)]
    w = functools.reduce(np.multiply.outer, m); val = (c * w).sum(tuple(range(-nd, 0)))
    want = float(np.prod([math.factorial(k) for k in e])) if tuple(e) == tuple(orders) else 0.
    scale = np.abs(c).sum(tuple(range(-nd, 0))).max() * np.abs(w).max() + abs(want) + 1e-30
    rec.close(mon, val, np.full(np.shape(val), want), tol=1e-9, scale=scale, detail=f'{detail}, monomial {e}')


def setup(rng, i):
  nd = 1 + i % 3; method = [FV, FD][i // 3 % 2]
  h = float(gen.pick(rng, [1., .5, .1, 2 * np.pi / 64, 3.]))
  sizes = tuple(int(rng.integers(2, {1: 8, 2: 6, 3: 4}[nd])) for _ in range(nd))
  orders = tuple(int(rng.integers(0, min(3, s))) if rng.random() < .6 else 0 for s in sizes)
  shift = tuple(float(gen.pick(rng, [0., .5, .5, .25])) for _ in range(nd))
  return nd, method, h, sizes, orders, shift


def constraint(rng, rec, i):
  nd, method, h, sizes, orders, shift = setup(rng, i)
  st = lu.get_stencils(sizes, shift, (h,) * nd)
  for s, n, o in zip(st, sizes, shift): rec.close('stencil', s, h * (np.arange(n) - (n - 1) // 2 - o), tol=1e-13, scale=h * n, detail=f'size {n}, shift {o}')
  acc = int(rng.integers(1, 4)); bias_acc = acc + int(rng.integers(0, 2)); given = None
  need = [n - d for n, d in zip(sizes, orders)]
  acc = max(1, min(acc, min(need))); bias_acc = max(acc, min(bias_acc, min(need)))
  rec.case(nd, method.name, h, sizes, orders, shift, acc, bias_acc)
  det = f'{method.name} sizes {sizes} shift {shift} orders {orders} accuracy {acc}'
  rows = len(exps(acc + sum(orders) - 1, nd)); free = int(np.prod(sizes)) - rows
  full = lu.polynomial_accuracy_coefficients(st, method, orders, bias_acc, h)
  rec.eq('bias-shape', full.shape, sizes, det); judge(rec, 'bias', full.ravel(), st, method, orders, bias_acc, h, det + f' baseline accuracy {bias_acc}')
  best = lu.polynomial_accuracy_coefficients(st, method, orders, None, h)
  # highest order: every axis exact on its own up to its stencil size
  for a in range(nd):
    for k in range(sizes[a]):
      m = [moment(s, k if b == a else orders[b], method, h) for b, s in enumerate(st)]
      w = functools.reduce(np.multiply.outer, m); want = float(np.prod([math.factorial(o) for o in orders])) if k == orders[a] else 0.
      rec.close('highest-order', (best * w).sum(), want, tol=1e-9, scale=np.abs(best).sum() * np.abs(w).max() + abs(want), detail=f'{det}, axis {a}, degree {k}')
  A, b = lu.polynomial_accuracy_constraints(st, method, orders, acc, h)
  # monomials that agree on the whole stencil are one constraint
  rec.ok('constraint-count', np.linalg.matrix_rank(A / np.abs(A).max(1, keepdims=True).clip(1e-300)) <= A.shape[0] <= rows and A.shape[1] == int(np.prod(sizes)), lambda: f'{det}: {A.shape}')
  free = A.shape[1] - A.shape[0]
  if free > 0:
    rec.close('constraints-met', A @ full.ravel(), b, tol=1e-9, scale=np.abs(A).max() * np.abs(full).sum() + 1, detail=det)
  try:
    pc = layers.PolynomialConstraint(st, orders, method, (h,) * nd, acc, bias_acc)
  except ValueError as e:
    rec.ok('refused', free <= 0 or 'invalid bias' in str(e), f'{det}: {free} free parameters but {e}'); return
  if not rec.ok('free-parameters', free > 0 and pc.subspace_size == free, lambda: f'{det}: {pc.subspace_size} parameters, {free} degrees of freedom'): return
  rec.close('zero-logits', pc(np.zeros((3, free))), np.broadcast_to(full.ravel(), (3, full.size)), tol=1e-13, detail=det)
  for big in (1., float(gen.pick(rng, [1e3, 1e-3, 30.]))):
    lg = big * rng.standard_normal(tuple(int(rng.integers(1, 4)) for _ in range(int(rng.integers(0, 3)))) + (free,))
    c = np.asarray(pc(lg)); rec.eq('coefficient-shape', c.shape, lg.shape[:-1] + (full.size,), det)
    judge(rec, 'constraint', c, st, method, orders, acc, h, f'{det}, logits of size {big}')
  # every parameter is used: the map from logits to coefficients is injective
  J = np.asarray(pc(np.eye(free))) - full.ravel(); J = J * h ** sum(orders)
  rec.ok('independent', np.linalg.svd(J, compute_uv=False).min() > 1e-6, lambda: f'{det}: parameters are not independent')
  g = np.asarray(pc.bias) + J[0] / h ** sum(orders)   # any valid stencil may serve as baseline
  pb = layers.PolynomialConstraint(st, orders, method, (h,) * nd, acc, bias=g)
  rec.close('custom-bias', pb(np.zeros(free)), g, tol=1e-13, detail=det)
  rec.raises('invalid-bias', lambda: layers.PolynomialConstraint(st, orders, method, (h,) * nd, acc, bias=g + .1 * (1 + np.abs(g).max())), ValueError, det)
  if nd > 1: rec.raises('uneven-steps', lambda: layers.PolynomialConstraint(st, orders, method, (h,) * (nd - 1) + (2 * h,), acc, bias_acc), ValueError, det)
  rec.raises('accuracy-0', lambda: lu.polynomial_accuracy_constraints(st, method, orders, 0, h), ValueError, det)
  rec.raises('orders-length', lambda: lu.polynomial_accuracy_constraints(st, method, orders + (0,), 1, h), ValueError, det)
  fac, by = c23.tower(rng); sc = layers.StencilCoefficients(st, orders, functools.partial(fac, ndim=nd), (h,) * nd, method, accuracy_order=acc, bias_accuracy_order=bias_acc)
  x = rng.standard_normal((4,) * nd + (2,)); c = sc(x)
  rec.close('stencil-coefficients', c, np.asarray(pc(by(x, free))), tol=1e-11, detail=det); judge(rec, 'network-constraint', c, st, method, orders, acc, h, det)


def irregular(rng, rec, i):
  """Stencils at arbitrary, unevenly spaced positions, one after the other."""
  nd = 1 + i % 2; method = [FV, FD][i // 2 % 2]; h = float(gen.pick(rng, [1., .5]))
  sizes = tuple(int(rng.integers(3, 6 - nd)) if nd == 1 else 3 for _ in range(nd)); orders = tuple(int(rng.integers(0, 3)) for _ in range(nd))
  acc = max(1, min(n - d for n, d in zip(sizes, orders)))
  lo = float(gen.pick(rng, [-1., -1.5, 0.])); hi = lo + float(gen.pick(rng, [3., 4.]))
  rec.case('irregular', nd, method.name, h, sizes, orders, lo, hi)
  for k in range(5):  # same ends, other positions in between, and another order of the nodes
    st = []
    for n in sizes:
      x = np.concatenate([[lo], np.sort(rng.choice(np.arange(1, 12), n - 2, replace=False)) * (hi - lo) / 12 + lo, [hi]])
      st.append(x if rng.random() < .7 else np.concatenate([x[:1], rng.permutation(x[1:])]))
    det = f'{method.name} nodes {[list(np.round(x, 3)) for x in st]} orders {orders} accuracy {acc}'
    c = lu.polynomial_accuracy_coefficients(st, method, orders, acc, h)
    rec.eq('bias-shape', c.shape, sizes, det); judge(rec, 'bias', c.ravel(), st, method, orders, acc, h, det)
    A, b = lu.polynomial_accuracy_constraints(st, method, orders, acc, h)
    rec.close('constraints-met', A @ c.ravel(), b, tol=1e-9, scale=np.abs(A).max() * np.abs(c).sum() + 1, detail=det)
    for q, e in enumerate(exps(acc + sum(orders) - 1, nd)):
      m = functools.reduce(np.multiply.outer, [moment(x, r, method, h) for x, r in zip(st, e)]).ravel()
      z = np.linalg.lstsq(A.T, m, rcond=None)[0]
      rec.small('irregular-rows', A.T @ z - m, np.abs(m).max() + 1, tol=1e-8, detail=f'{det}: monomial {e} is not constrained')
    free = A.shape[1] - A.shape[0]
    if free > 0:
      pc = layers.PolynomialConstraint(st, orders, method, (h,) * nd, acc, acc)
      judge(rec, 'constraint', np.asarray(pc(rng.standard_normal((4, free)))), st, method, orders, acc, h, det)


def offs_of(rng, nd):
  a = tuple(float(gen.pick(rng, [0., .5, 1.])) for _ in range(nd)); b = tuple(float(gen.pick(rng, [0., .5, 1., 1.5])) for _ in range(nd))
  return a, b


def stencil_np(u, coef, sizes, delta):
  """sum_s coef[i, s] u[i + floor(delta) + s - (size-1)//2]."""
  nd = len(sizes); out = 0.
  for k, s in enumerate(itertools.product(*[range(n) for n in sizes])):
    mv = [-(math.floor(d) + q - (n - 1) // 2) for d, q, n in zip(delta, s, sizes)]
    out = out + coef[..., k] * np.roll(u, mv, tuple(range(nd)))
  return out


def derivative(rng, rec, i):
  nd = 1 + i % 3; h = float(gen.pick(rng, [1., .25, 2 * np.pi / 32])); a, b = offs_of(rng, nd); delta = tuple(q - p for p, q in zip(a, b))
  sizes = tuple(int(rng.integers(2, {1: 7, 2: 5, 3: 4}[nd])) for _ in range(nd)); orders = tuple(0 for _ in sizes)
  if i // 3 % 2: orders = tuple(int(k == i % nd) for k in range(nd))
  if i % 12 < 3: sizes, b = tuple(2 * (n // 2) for n in sizes), tuple(p + gen.pick(rng, [-.5, .5]) for p in a); delta = tuple(q - p for p, q in zip(a, b))
  lay = gen.pick(rng, [None, None, (2,) * nd, (1,) * nd]); shp = tuple((n + int(rng.integers(2, 5))) * (l if l else 1) for n, l in zip(sizes, lay or (1,) * nd))
  pm = gen.pick(rng, ['roll', 'conv'])
  rec.case(nd, h, a, b, sizes, orders, lay, pm, shp); det = f'sizes {sizes}, {a}->{b}, orders {orders}, layout {lay}, {pm}'
  roll, sh = lu.get_roll_and_shift(a, b)
  rec.ok('roll-and-shift', all(0 <= s < 1 and abs(s - r - d) < 1e-12 and isinstance(r, int) for r, s, d in zip(roll, sh, delta)), lambda: f'{det}: {roll}, {sh}')
  try:
    D = layers.SpatialDerivativeFromLogits(sizes, a, b, orders, (h,) * nd, pm, lay)
  except ValueError as e:
    rec.skip('no free parameters'); rec.ok('refused', int(np.prod(sizes)) <= len(exps(sum(orders), nd)), f'{det}: {e}'); return
  rec.eq('sizes', (D.stencil_size, D.subspace_size), (int(np.prod(sizes)), int(np.prod(sizes)) - len(exps(sum(orders), nd))), det)
  u = rng.standard_normal(shp); lg = rng.standard_normal(shp + (D.subspace_size,)) * float(gen.pick(rng, [1., 10.]))
  st = [h * (np.arange(n) - (n - 1) // 2 - (d - math.floor(d))) for n, d in zip(sizes, delta)]
  ref = layers.PolynomialConstraint(st, orders, FV, (h,) * nd); coef = np.asarray(ref(lg))
  f = jax.jit(lambda q, l: D(q[..., None], l))
  y = f(u, lg); rec.eq('derivative-shape', y.shape, shp + (1,), det)
  sc = np.abs(coef).sum(-1).max() * np.abs(u).max()
  rec.close('derivative', y[..., 0], stencil_np(u, coef, sizes, delta), tol=1e-11, scale=sc, detail=det)
  # exact on polynomials of the promised degree (away from the wrap), at the target location
  X = [(np.arange(n) + o) * h for n, o in zip(shp, a)]; inner = tuple(slice(n, s - n) if s > 2 * n + 1 else None for n, s in zip(sizes, shp))
  cst = float(rng.normal()) * 3
  rec.close('constants', f(np.full(shp, cst), lg)[..., 0], np.full(shp, cst if not sum(orders) else 0.), tol=1e-10, scale=np.abs(coef).sum(-1).max() * abs(cst) + abs(cst), detail=det)
  if sum(orders):
    s = rng.standard_normal(nd); U = sum(q * x.reshape([-1 if k == j else 1 for j in range(nd)]) for k, (q, x) in enumerate(zip(s, X))) + np.zeros(shp)
    y = np.asarray(f(U, lg)[..., 0]); keep = np.ones(shp, bool)
    for ax in range(nd):
      line = np.zeros(shp[ax], bool); line[sizes[ax]:shp[ax] - sizes[ax]] = True; keep &= line.reshape([-1 if k == ax else 1 for k in range(nd)])
    if keep.any(): rec.close('linear-exact', y[keep], np.full(keep.sum(), s[list(orders).index(1)]), tol=1e-9, scale=np.abs(coef).sum(-1).max() * np.abs(U).max(), detail=det)
  # no correction: baseline
  y0 = np.asarray(f(u, np.zeros_like(lg))[..., 0])
  if not sum(orders) and all(n % 2 == 0 for n in sizes) and all((d * 2) % 2 == 1 for d in delta):
    w = u
    for ax, d in enumerate(delta): w = .5 * (np.roll(w, -math.floor(d), ax) + np.roll(w, -math.floor(d) - 1, ax))
    rec.close('baseline-linear', y0, w, tol=1e-11, detail=det)
  bias = lu.polynomial_accuracy_coefficients(st, FV, orders, 1, h).ravel()
  rec.close('baseline', y0, stencil_np(u, np.broadcast_to(bias, shp + bias.shape), sizes, delta), tol=1e-11, scale=np.abs(bias).sum() * np.abs(u).max(), detail=det)
  rec.raises('wrong-logits', lambda: D(u[..., None], lg[..., :-1]), ValueError, det)
  # network version: coefficients come from the rolled inputs
  fac, by = c23.tower(rng); aux = [rng.standard_normal(shp) for _ in range(int(rng.integers(0, 3)))]
  S = layers.SpatialDerivative(sizes, a, b, orders, functools.partial(fac, ndim=nd), (h,) * nd, pm, lay)
  y = S(jnp.asarray(u)[..., None], *[jnp.asarray(q)[..., None] for q in aux])
  rl = [np.roll(q, [-math.floor(d) for d in delta], tuple(range(nd))) for q in [u] + aux]
  c2 = np.asarray(ref(by(np.stack(rl, -1), D.subspace_size)))
  rec.close('network-derivative', y[..., 0], stencil_np(u, c2, sizes, delta), tol=1e-10, scale=np.abs(c2).sum(-1).max() * np.abs(u).max(), detail=det)
  xs = tuple(int(rng.integers(1, n)) for n in shp); ax = tuple(range(nd))
  z = S(jnp.asarray(np.roll(u, xs, ax))[..., None], *[jnp.asarray(np.roll(q, xs, ax))[..., None] for q in aux])
  rec.close('network-equivariance', z, np.roll(np.asarray(y), xs, ax), tol=1e-10, scale=np.abs(c2).sum(-1).max() * np.abs(u).max(), detail=det)


def fuse(rng, rec, i):
  nd = 1 + i % 2 + (i % 7 == 6); h = float(gen.pick(rng, [1., .25])); m = int(rng.integers(1, 4)); same = bool(i % 2)
  lay = gen.pick(rng, [None, (2,) * nd, (1,) * nd]); base = tuple(int(rng.integers(2, 5)) for _ in range(nd)); D = {}
  for k in range(m):
    sizes = base if same else tuple(int(rng.integers(2, 5)) for _ in range(nd)); tgt = tuple(float(gen.pick(rng, [0., .5])) for _ in range(nd))
    orders = tuple(int(rng.random() < .2) for _ in range(nd)) if min(sizes) > 2 else (0,) * nd
    try: D[('u', k)] = layers.SpatialDerivativeFromLogits(sizes, (0.,) * nd, tgt, orders, (h,) * nd, 'roll', lay)
    except ValueError: D[('u', k)] = layers.SpatialDerivativeFromLogits((3,) * nd if not same else base, (0.,) * nd, (.5,) * nd, (0,) * nd, (h,) * nd, 'roll', lay)
  shp = tuple((4 + int(rng.integers(0, 3))) * (l if l else 1) for l in (lay or (1,) * nd)); outs = [d.subspace_size for d in D.values()]
  rec.case(nd, h, m, same, lay, [(d.stencil_shape, d.subspace_size) for d in D.values()], shp)
  lg = rng.standard_normal(shp + (sum(outs),)); parts = np.split(lg, np.cumsum(outs)[:-1], -1); det = f'{[d.stencil_shape for d in D.values()]}, layout {lay}, shape {shp}'
  us = {k: rng.standard_normal(shp + (1,)) for k in D}
  want = {k: np.asarray(d(us[k], l)) for (k, d), l in zip(D.items(), parts)}
  for conv, fp in itertools.product([False, True], [False, True]):
    if (fp and not same) or (conv and lay is None): continue
    L = jnp.asarray(lg, jnp.float32) if conv else jnp.asarray(lg)
    F = layers.fuse_spatial_derivative_layers(D, L, constrain_with_conv=conv, fuse_patches=fp)
    rec.eq('fused-keys', list(F), list(D), det)
    for k, d in D.items():
      sc = max(np.abs(np.asarray(d.constraint.nullspace)).sum() * np.abs(lg).max() + np.abs(d.constraint.bias).sum(), 1.) * np.abs(us[k]).max()
      rec.close('fused' if not conv else 'fused-conv', F[k](jnp.asarray(us[k])), want[k], tol=1e-11 if not conv else 3e-6, scale=sc, detail=f'{det}, conv {conv}, patches {fp}, {k}')
  neg = layers.SpatialDerivativeFromLogits((2,) * nd, (.5,) * nd, (0.,) * nd, (0,) * nd, (h,) * nd, 'roll', lay)
  rec.raises('fused-roll', lambda: layers.fuse_spatial_derivative_layers({'a': neg}, jnp.asarray(rng.standard_normal(shp + (neg.subspace_size,)))), ValueError, 'derivative with roll')


def learned(rng, rec, i):
  nd = 2 + (i % 5 == 4); h = float(gen.pick(rng, [1., .125, 2 * np.pi / 12])); lay = gen.pick(rng, [None, None, (2,) * nd])
  n = {2: (10, 6), 3: (8, 4)}[nd]; shp = tuple(int(rng.integers(n[1], n[0] + 1)) if lay is None else 2 * int(rng.integers(3, 6)) for _ in range(nd)); grid = G.Grid(shp, step=h)
  off = grid.cell_faces if rng.random() < .7 else (grid.cell_center,) * nd
  bc = B.periodic_boundary_conditions(nd); v = tuple(G.GridVariable(G.GridArray(jnp.asarray(rng.standard_normal(shp)), o, grid), bc) for o in off)
  tags = gen.pick(rng, [(None,), ('c', 'u')]); size = int(rng.integers(2, 5)); aniso = bool(rng.random() < .3)
  if i % 4 == 1: aniso, size = True, 2
  pm = gen.pick(rng, ['roll', 'conv']); fc = bool(rng.random() < .6); fp = fc and not aniso and bool(rng.random() < .5)
  big = float(gen.pick(rng, [1., 20.])); fac, by = c23.tower(rng, scale=big)
  rec.case(nd, h, shp, off, tags, size, aniso, pm, fc, fp, lay); det = f'stencil {size}{" anisotropic" if aniso else ""}, tags {tags}, {pm}, fuse {fc}/{fp}, layout {lay}'
  cls = mi.anisotropic_learned_interpolation if aniso else mi.FusedLearnedInterpolation
  mk = lambda f, **k: cls(grid, .1, None, v, tags=tags, stencil_size=size, tower_factory=f, **k)
  I = mk(fac, extract_patch_method=pm, fuse_constraints=fc, fuse_patches=fp, tile_layout=lay); I0 = mk(fac)
  Z = mk(lambda out, ndim, name=None: (lambda x: jnp.zeros(x.shape[:-1] + (out,))), extract_patch_method=pm, fuse_constraints=fc, fuse_patches=fp, tile_layout=lay)
  seen = {}
  for u in v:
    for t in G.control_volume_offsets(u):
      for tag in tags:
        c = G.GridVariable(G.GridArray(jnp.asarray(rng.standard_normal(shp)), u.offset, grid), bc)
        y = I(c, t, v, .1, tag); sz = tuple(1 if aniso and p == q else size for p, q in zip(u.offset, t))
        rec.field('learned', y, None, t, grid, bc, detail=det); rec.eq('learned-shape', y.shape, shp, det)
        k = I(G.GridVariable(G.GridArray(jnp.full(shp, 2.5), u.offset, grid), bc), t, v, .1, tag)
        sc = np.abs(np.asarray(y.data)).max() + 3 * big * np.prod(sz)
        rec.close('learned-constant', k, np.full(shp, 2.5), tol=1e-10, scale=sc, detail=f'{det}, {u.offset}->{t}')
        rec.close('learned-options', y, np.asarray(I0(c, t, v, .1, tag).data), tol=1e-10, scale=sc, detail=f'{det}, {u.offset}->{t}')
        # zero correction: linear along shifted axes with even stencils, identity along others with odd or single cells
        z = Z(c, t, v, .1, tag); w = np.asarray(c.data); exact = True
        for ax, (p, q, s) in enumerate(zip(u.offset, t, sz)):
          if q != p:
            exact &= s % 2 == 0 and abs(q - p) == .5; w = .5 * (np.roll(w, -math.floor(q - p), ax) + np.roll(w, -math.floor(q - p) - 1, ax))
          else: exact &= s % 2 == 1
        if aniso and exact: rec.close('learned-baseline', z, w, tol=1e-11, detail=f'{det}, {u.offset}->{t}'); rec.close('learned-baseline-linear', z, np.asarray(ip.linear(c, t, v, .1).data), tol=1e-11, detail=det)
        # explicit: logits of the stand-in network, split in key order
        seen[(u.offset, t, tag)] = (c, y, sz)
  keys = list(seen); free = [int(np.prod(s)) - 1 for _, _, s in seen.values()]; x = np.stack([np.asarray(u.data) for u in v], -1)
  logits = np.split(by(x, sum(free)), np.cumsum(free)[:-1], -1)
  if len(set(keys)) == len(v) * nd * len(tags):
    for key, lg in zip(keys, logits):
      c, y, sz = seen[key]; delta = tuple(q - p for p, q in zip(key[0], key[1]))
      st = [h * (np.arange(q) - (q - 1) // 2 - (d - math.floor(d))) for q, d in zip(sz, delta)]
      coef = np.asarray(layers.PolynomialConstraint(st, (0,) * nd, FV, (h,) * nd)(lg))
      rec.close('learned-explicit', y, stencil_np(np.asarray(c.data), coef, sz, delta), tol=1e-10, scale=np.abs(coef).sum(-1).max() * 4, detail=f'{det}, {key}')
    if len(tags) == 2:
      a = [np.asarray(seen[k][1].data) for k in keys[:2]]; c = seen[keys[0]][0]
      rec.ok('tags-differ', not np.allclose(np.asarray(I(c, keys[0][1], v, .1, tags[0]).data), np.asarray(I(c, keys[0][1], v, .1, tags[1]).data)), 'two tags share one interpolation')
  c = seen[keys[0]][0]; s = I(c, c.offset, v, .1, tags[0]); rec.field('same-offset', s, np.asarray(c.data), c.offset, grid, bc, tol=0., detail='no interpolation needed')
  rec.raises('unknown-key', lambda: I(c, tuple(o + 3.5 for o in c.offset), v, .1, tags[0]), KeyError, 'target that was not prepared')
  rec.raises('unknown-tag', lambda: I(c, keys[0][1], v, .1, 'q'), KeyError, 'tag that was not prepared')
  # individual modules
  fac2, by2 = c23.tower(rng); ev = 2 * int(rng.integers(1, 3)); J = mi.IndividualLearnedInterpolation(grid, .1, None, v, ev, lambda out, ndim: fac2(out, ndim))
  a, b = offs_of(rng, nd); c = G.GridVariable(G.GridArray(jnp.asarray(rng.standard_normal(shp)), a, grid), bc); y = J(c, b, v, .1)
  rec.field('individual', y, None, b, grid, bc, detail=det)
  if a == b: rec.close('individual-same', y, np.asarray(c.data), tol=0., detail='same offset')
  else:
    delta = tuple(q - p for p, q in zip(a, b)); st = [h * (np.arange(ev) - (ev - 1) // 2 - (d - math.floor(d))) for d in delta]
    rl = np.stack([np.roll(np.asarray(q.data), [-math.floor(d) for d in delta], tuple(range(nd))) for q in (c,) + v], -1)
    coef = np.asarray(layers.PolynomialConstraint(st, (0,) * nd, FV, (h,) * nd)(by2(rl, ev ** nd - 1)))
    rec.close('individual-again', J(c, b, v, .1), np.asarray(y.data), tol=1e-13, detail='the same interpolation twice')
    rec.close('individual-explicit', y, stencil_np(np.asarray(c.data), coef, (ev,) * nd, delta), tol=1e-10, scale=np.abs(coef).sum(-1).max() * 4, detail=f'stencil {ev}, {a}->{b}')


def transport(rng, rec, i):
  """Learned interpolation inside the convection term: momentum is conserved, uniform flow stays uniform."""
  nd = 2 + (i % 4 == 3); h = float(gen.pick(rng, [.25, 2 * np.pi / 16])); shp = tuple(int(rng.integers(5, 10 if nd == 2 else 7)) for _ in range(nd)); grid = G.Grid(shp, step=h)
  bc = B.periodic_boundary_conditions(nd); fac, _ = c23.tower(rng, scale=float(gen.pick(rng, [.3, 3.]))); size = int(rng.integers(2, 5)); fused = bool(i % 2)
  mkv = lambda d: tuple(G.GridVariable(G.GridArray(jnp.asarray(q), o, grid), bc) for q, o in zip(d, grid.cell_faces))
  rec.case(nd, h, shp, size, fused)
  def run(v):
    if fused:
      mod = lambda *a, **k: mi.FusedLearnedInterpolation(*a, stencil_size=size, tower_factory=fac, tags=('u', 'c'), **k)
      f = ma.modular_self_advection(grid, .1, None, interpolation_module=mod, v=v)
    else:
      one = lambda *a, **k: mi.FusedLearnedInterpolation(*a, stencil_size=size, tower_factory=fac, **k)
      f = ma.modular_advection(grid, .1, None, one, mi.linear, v=v)
    return [f(c, v, .1) for c in v]
  v = mkv([rng.standard_normal(shp) for _ in range(nd)]); out = run(v)
  for c, u in zip(out, v):
    rec.field('convection', c, None, u.offset, grid, detail=f'stencil {size}'); d = np.asarray(c.data)
    rec.small('momentum-conserved', d.sum(), np.abs(d).sum() + 1e-30, tol=1e-10, detail=f'stencil {size}, fused {fused}')
  w = rng.standard_normal(nd)
  for c in run(mkv([np.full(shp, q) for q in w])): rec.small('uniform-flow', c, np.abs(w).max() ** 2 / h * 50 ** 2, tol=1e-12, detail=f'stencil {size}, fused {fused}')


SUITES = {'irregular': (irregular, 12, 400), 'constraint': (constraint, 36, 400), 'derivative': (derivative, 30, 300), 'fuse': (fuse, 14, 120), 'learned': (learned, 12, 120), 'transport': (transport, 8, 60)}
REQUIRED = ['stencil', 'irregular-rows', 'bias', 'highest-order', 'constraint', 'zero-logits', 'independent', 'custom-bias', 'invalid-bias', 'network-constraint', 'roll-and-shift', 'derivative',
            'constants', 'linear-exact', 'baseline', 'baseline-linear', 'network-derivative', 'network-equivariance', 'fused', 'fused-conv', 'fused-roll', 'learned-constant', 'learned-options',
            'learned-explicit', 'learned-baseline', 'same-offset', 'unknown-key', 'individual-explicit', 'momentum-conserved', 'uniform-flow']
