"""C05: discrete derivatives are exact, local and satisfy the vector identities."""
import numpy as np
import jax
import jax.numpy as jnp
from jax_cfd.base import boundaries as B, grids as G, finite_differences as fd
from vlib import gen, ref, monitors, workloads

RULE = ('random grid (1-3D, anisotropic), offset, boundary condition and field content; every operator is '
        'compared with an independent numpy difference quotient; identities on random periodic fields; '
        'operators observed inside real solver steps; distinct by (operator, ndim, types, offset)')
ASSUMPTIONS = ['float64', 'gradient_tensor is only tested for cell-centred and face (staggered) components']


def sc(u, p=1):
  return (np.abs(np.asarray(u.data)).max() + 5) / min(u.grid.step) ** p


def s_ops(rng, rec, i):
  g = gen.grid(rng)
  bc = gen.bc(rng, g.ndim)
  off = gen.admissible_offset(rng, bc.types)
  v = gen.variable(rng, g, off, bc)
  F = ref.Field(v)
  det = f'types {bc.types} values {bc.bc_values} offset {off} step {g.step}'
  for ax in range(g.ndim):
    rec.case('diff', g.ndim, bc.types[ax], off[ax], g.shape)
    for kind, fn, d in (('f', fd.forward_difference, .5), ('b', fd.backward_difference, -.5),
                        ('c', fd.central_difference, 0.)):
      o = tuple(x + (d if a == ax else 0) for a, x in enumerate(off))
      rec.field('difference', fn(v, ax), F.diff(ax, kind), offset=o, grid=g, tol=1e-11, scale=sc(v),
                detail=f'{kind} axis {ax} {det}')
  for kind, fn in (('f', fd.forward_difference), ('b', fd.backward_difference), ('c', fd.central_difference)):
    t = fn(v)
    rec.eq('all-axes', len(t), g.ndim)
    axes = tuple(int(x) for x in rng.permutation(g.ndim))
    for a, q in zip(range(g.ndim), t):
      rec.close('all-axes', q, F.diff(a, kind), tol=1e-11, scale=sc(v), detail=f'{kind} {det}')
    for a, q in zip(axes, fn(v, axes)):
      rec.close('all-axes', q, F.diff(a, kind), tol=1e-11, scale=sc(v), detail=f'{kind} {axes} {det}')
  rec.field('laplacian', fd.laplacian(v), F.lap(), offset=off, grid=g, tol=1e-11, scale=sc(v, 2), detail=det)
  # stencil_sum
  arrs = [v.array, v.shift(1, 0), v.shift(-1, 0)] if g.shape[0] > 2 else [v.array]
  s = fd.stencil_sum(*arrs)
  rec.field('stencil-sum', s, sum(np.asarray(a.data) for a in arrs), offset=off, grid=g, tol=1e-13, scale=sc(v) * min(g.step) * 3)


def s_vector(rng, rec, i):
  """divergence / curl / gradient tensor of fields with boundary conditions."""
  nd = int(rng.choice([1, 2, 2, 3, 3]))
  g = gen.grid(rng, nd)
  stag = bool(rng.random() < .6)
  bcs = []
  per = rng.random(nd) < .5
  for c in range(nd):
    t = []
    for a in range(nd):
      if per[a]: t.append((gen.P, gen.P))
      elif stag and c == a: t.append((gen.Dd, gen.Dd))
      else: t.append(gen.pick(rng, [(gen.Dd, gen.Dd), (gen.N, gen.N)]))
    bcs.append(B.ConstantBoundaryConditions(tuple(t), tuple((None, None) if x[0] == gen.P else
               (float(rng.normal()), float(rng.normal())) for x in t)))
  offs = g.cell_faces if stag else [g.cell_center] * nd
  v = tuple(gen.variable(rng, g, o, b, 'normal') for o, b in zip(offs, bcs))
  F = [ref.Field(u) for u in v]
  S = max(sc(u) for u in v) * nd
  rec.case('vec', nd, stag, tuple(b.types for b in bcs))
  rec.field('divergence', fd.divergence(v) if stag else fd.centered_divergence(v),
            sum(f.diff(a, 'b' if stag else 'c') for a, f in enumerate(F)), offset=g.cell_center, grid=g,
            tol=1e-11, scale=S, detail=f'{stag} {[b.types for b in bcs]}')
  if not stag and nd > 1:  # components at one point have differences at different points
    rec.raises('reject', lambda: (fd.curl_2d if nd == 2 else fd.curl_3d)(v), G.InconsistentOffsetError)
  if nd == 2 and stag:
    c = fd.curl_2d(v)
    rec.close('curl', c, F[1].diff(0, 'f') - F[0].diff(1, 'f'), tol=1e-11, scale=S)
    if stag: rec.eq('curl', tuple(c.offset), (1.0, 1.0))
  if nd == 3 and stag:
    c = fd.curl_3d(v)
    w = (F[2].diff(1, 'f') - F[1].diff(2, 'f'), F[0].diff(2, 'f') - F[2].diff(0, 'f'), F[1].diff(0, 'f') - F[0].diff(1, 'f'))
    for k in range(3):
      rec.close('curl', c[k], w[k], tol=1e-11, scale=S, detail=f'component {k}')
      if stag:
        rec.eq('curl', tuple(c[k].offset), tuple(.5 if k == a else 1. for a in range(3)))
  # gradient tensor
  T = fd.gradient_tensor(v)
  rec.eq('gradient', T.shape, (nd, nd))
  for a in range(nd):
    for c in range(nd):
      if stag and a == c:
        want = F[c].diff(a, 'b')
      else:
        # component interpolated to the centre, then centred difference
        q = F[c]
        if stag:
          L = .5 * (q.shift(-1, c) + q.data)
          o = tuple(.5 for _ in range(nd))
          q = ref.Field(gen.var(L, o, g, v[c].bc))
        want = q.diff(a, 'c')
      rec.field('gradient', T[a, c], want, offset=g.cell_center, grid=g, tol=1e-11, scale=S,
                detail=f'd v{c} / d x{a} staggered {stag}')
  # a component on the lower faces
  ax = int(rng.integers(nd))
  if per[ax] or (bcs[ax].types[ax] == (gen.Dd, gen.Dd)):
    o = tuple(0. if a == ax else .5 for a in range(nd)); u = gen.variable(rng, g, o, bcs[ax], 'normal'); f = ref.Field(u)
    L = .5 * (f.data + f.shift(1, ax)); q = ref.Field(gen.var(L, g.cell_center, g, bcs[ax]))
    for a, t in enumerate(fd.gradient_tensor(u)):
      rec.field('gradient', t, f.diff(a, 'f') if a == ax else q.diff(a, 'c'), offset=g.cell_center, grid=g, tol=1e-11, scale=sc(u) * nd,
                detail=f'component on lower faces of axis {ax}, d / d x{a}, {bcs[ax].types}')
  one = fd.gradient_tensor(v[0])
  for a in range(nd):
    rec.close('gradient', one[a], T[a, 0], tol=1e-14, scale=S)


def s_identities(rng, rec, i):
  nd = int(rng.choice([1, 2, 3]))
  g = gen.grid(rng, nd)
  pb = B.periodic_boundary_conditions(nd)
  off = tuple(float(x) for x in rng.choice([0., .5, 1.], nd))
  p = gen.variable(rng, g, off, pb)
  h = g.step
  rec.case('ident', nd, off, g.shape)
  V = lambda a: G.GridVariable(a, pb)
  s1, s2 = sc(p), sc(p, 2)
  grad = tuple(V(x) for x in fd.forward_difference(p))
  rec.field('lap=div grad', fd.divergence(grad), fd.laplacian(p), offset=off, tol=1e-11, scale=s2 * nd)
  for ax in range(nd):
    for fn in (fd.forward_difference, fd.backward_difference, fd.central_difference):
      rec.small('telescopes', np.asarray(fn(p, ax).data).sum(axis=ax), s1 * g.shape[ax], 1e-12, f'axis {ax}')
    f, b, c = (np.asarray(fn(p, ax).data) for fn in (fd.forward_difference, fd.backward_difference, fd.central_difference))
    rec.close('central=mean', c, (f + b) / 2, tol=1e-12, scale=s1)
    for ax2 in range(nd):
      x = fd.forward_difference(V(fd.forward_difference(p, ax)), ax2)
      y = fd.forward_difference(V(fd.forward_difference(p, ax2)), ax)
      rec.close('commute', x, np.asarray(y.data), tol=1e-11, scale=s2)
      rec.eq('commute', tuple(x.offset), tuple(y.offset))
  w = tuple(gen.variable(rng, g, tuple(o + (.5 if a == k else 0) for a, o in enumerate(off)), pb, 'normal') for k in range(nd))
  lhs = float((np.asarray(p.data) * np.asarray(fd.divergence(w).data)).sum())
  rhs = -sum(float((np.asarray(q.data) * np.asarray(u.data)).sum()) for q, u in zip(grad, w))
  rec.close('adjoint', lhs, rhs, tol=1e-11, scale=s1 * 10 * p.data.size)
  q = gen.variable(rng, g, off, pb, 'normal')
  lp, lq = np.asarray(fd.laplacian(p).data), np.asarray(fd.laplacian(q).data)
  rec.close('selfadjoint', (lp * np.asarray(q.data)).sum(), (lq * np.asarray(p.data)).sum(), tol=1e-11, scale=s2 * 10 * p.data.size)
  rec.leq('lap<=0', (lp * np.asarray(p.data)).sum(), 0.0, slack=1e-9 * s2 * s1 * p.data.size)
  a, b = rng.normal(size=2)
  comb = gen.var(a * np.asarray(p.data) + b * np.asarray(q.data), off, g, pb)
  rec.close('linear', fd.laplacian(comb), a * lp + b * lq, tol=1e-11, scale=s2 * 10)
  k = gen.variable(rng, g, off, pb); k = gen.var(np.full(g.shape, rng.normal() * 10), off, g, pb)
  rec.small('constant', fd.laplacian(k), 10 / min(h) ** 2, 1e-12)
  if nd == 2:
    rec.small('curl grad', fd.curl_2d(grad), s2, 1e-11)
  if nd == 3:
    for c in fd.curl_3d(grad):
      rec.small('curl grad', c, s2, 1e-11)
    cu = fd.curl_3d(w)
    d = sum(np.asarray(fd.forward_difference(V(c), ax).data) for ax, c in enumerate(cu))
    rec.small('div curl', d, max(sc(u, 2) for u in w) * 6, 1e-11)


def s_polynomials(rng, rec, i):
  """Exactness on polynomials away from walls, at the location reported."""
  nd = int(rng.choice([1, 2, 3]))
  g = gen.grid(rng, nd, shp={1: (12,), 2: (8, 7), 3: (6, 7, 5)}[nd], aspect=2.)
  off = tuple(float(x) for x in rng.choice([0., .5, 1.], nd))
  pb = B.periodic_boundary_conditions(nd)
  c1, c2, c3 = rng.normal(size=(3, nd)); cx = rng.normal()
  mid = np.array([(lo + up) / 2 for lo, up in g.domain])
  def X(o):
    return np.meshgrid(*[lo + (np.arange(n) + oo) * h - m for (lo, _), n, oo, h, m in
                         zip(g.domain, g.shape, o, g.step, mid)], indexing='ij')
  inn = tuple(slice(1, -1) for _ in range(nd))
  rec.case('poly', nd, off)
  x = X(off)
  lin = gen.var(cx + sum(a * y for a, y in zip(c1, x)), off, g, pb)
  qua = gen.var(cx + sum(a * y + b * y * y for a, b, y in zip(c1, c2, x)), off, g, pb)
  cub = gen.var(cx + sum(a * y + b * y * y + c * y ** 3 for a, b, c, y in zip(c1, c2, c3, x)), off, g, pb)
  for ax in range(nd):
    for fn in (fd.forward_difference, fd.backward_difference, fd.central_difference):
      r = fn(lin, ax)
      rec.close('poly1', np.asarray(r.data)[inn], np.full(np.array(g.shape) - 2, c1[ax]), tol=1e-10, scale=sc(lin))
      # exact on quadratics at the reported location
      r = fn(qua, ax); xr = X(r.offset)[ax]
      rec.close('poly2', np.asarray(r.data)[inn], (c1[ax] + 2 * c2[ax] * xr)[inn], tol=1e-10, scale=sc(qua))
  xr = X(off)
  rec.close('poly3', np.asarray(fd.laplacian(cub).data)[inn], sum(2 * b + 6 * c * y for b, c, y in zip(c2, c3, xr))[inn],
            tol=1e-9, scale=sc(cub, 2))


def s_reject(rng, rec, i):
  nd = int(rng.integers(2, 4))
  g = gen.grid(rng, nd)
  v = gen.periodic_velocity(rng, g)
  rec.case('reject', nd)
  R = lambda f, d: rec.raises('reject', f, ValueError, d)
  R(lambda: fd.divergence(v[:-1]), 'divergence arity')
  R(lambda: fd.divergence(v + v[:1]), 'divergence arity')
  R(lambda: fd.centered_divergence(v[:-1]), 'divergence arity')
  if nd == 2:
    R(lambda: fd.curl_3d(v), 'curl_3d of 2-D')
    R(lambda: fd.curl_2d(v[:1]), 'curl_2d arity')
  else:
    R(lambda: fd.curl_2d(v), 'curl_2d of 3-D'); R(lambda: fd.curl_2d(v[:2]), 'curl_2d on 3-D grid')
    R(lambda: fd.curl_3d(v[:2]), 'arity')
  R(lambda: fd.gradient_tensor(gen.var(np.zeros(g.shape), (.25,) * nd, g, v[0].bc)), 'offset')


def s_simulation(rng, rec, i):
  def on(kind):
    def obs(rec, a, out):
      u, ax = a['u'], a.get('axis')
      if not isinstance(ax, (int, np.integer)): return
      if tuple(u.data.shape) != tuple(u.grid.shape): rec.skip('shape'); return
      if not ref.line(u.data, u.offset, u.grid, u.bc, ax).complete(): rec.skip('incomplete'); return
      F = ref.Field(u)
      if kind != 'b' and u.bc.types[ax][0] != 'periodic' and u.offset[ax] not in (0., .5): rec.skip('loc'); return
      rec.close('sim.difference', out, F.diff(ax, kind), tol=1e-10, scale=sc(u), detail=f'{kind} {ax} in a step')
    return obs
  def lap(rec, a, out):
    u = a['u']
    if tuple(u.data.shape) != tuple(u.grid.shape): rec.skip('shape'); return
    if not all(ref.line(u.data, u.offset, u.grid, u.bc, x).complete() for x in range(u.grid.ndim)): rec.skip('incomplete'); return
    rec.field('sim.laplacian', out, ref.Field(u).lap(), offset=u.offset, tol=1e-10, scale=sc(u, 2), detail='in a step')
  def div(rec, a, out):
    F = [ref.Field(u) for u in a['v']]
    if any(tuple(u.data.shape) != tuple(u.grid.shape) for u in a['v']): rec.skip('shape'); return
    rec.close('sim.divergence', out, sum(f.diff(k, 'b') for k, f in enumerate(F)), tol=1e-10,
              scale=max(sc(u) for u in a['v']) * len(F), detail='in a step')
  s = workloads.simulation(rng, pool=[(6, 8), (8, 5)], ndim=2)
  rec.case('sim', s.kind, s.convect, s.walls)
  with monitors.hook([(fd, 'forward_difference', on('f')), (fd, 'backward_difference', on('b')),
                      (fd, 'central_difference', on('c')), (fd, 'laplacian', lap), (fd, 'divergence', div)], rec):
    with jax.disable_jit():
      s.step(s.v)


SUITES = {
    'ops': (s_ops, 80, 1200),
    'vector': (s_vector, 60, 900),
    'identities': (s_identities, 48, 700),
    'polynomials': (s_polynomials, 30, 400),
    'reject': (s_reject, 6, 40),
    'simulation': (s_simulation, 8, 60),
}
REQUIRED = ['difference', 'all-axes', 'laplacian', 'divergence', 'curl', 'gradient', 'lap=div grad', 'telescopes',
            'adjoint', 'curl grad', 'div curl', 'poly1', 'poly2', 'poly3', 'reject']
