"""C26: operators commute with the symmetries of the grid (metamorphic monitor)."""
import functools
import itertools
import numpy as np
import jax
import jax.numpy as jnp
from jax_cfd.base import advection as ad, boundaries as B, diffusion, equations as eqs, finite_differences as fd, forcings as fo
from jax_cfd.base import grids as G, interpolation as ip, pressure as pr, subgrid_models as sg
from jax_cfd.collocated import advection as cad, equations as ceq, pressure as cpr, diffusion as cdf
from jax_cfd.spectral import equations as seq, time_stepping as sts
from vlib import core, gen, workloads

RULE = ('random fields on anisotropic grids; every operator, solve and solver step is executed on the original inputs and on '
        'inputs translated by whole cells, reflected, permuted, re-based and rescaled in length, time and mass; the second result '
        'must be the transformed first one (sample by sample, at the transformed location); distinct by operator, symmetry and grid')
ASSUMPTIONS = ['float64', 'translation along periodic axes only', 'spectral solvers are compared on states inside the resolved band, '
               'on grids with even sizes (where both axes keep the same fraction of the spectrum)']

P, Dd, N = gen.P, gen.Dd, gen.N
SHP = [(6, 9), (7, 10), (4, 6, 5)]


class Sym:
  """translate (periodic axes), reflect, permute, scale length a, time b, mass m; origin o."""

  def __init__(self, rng, g, per, scale=True, reflect=True, permute=True, origin=True, wide=False):
    n = g.ndim; self.g = g; self.per = per
    self.shift = tuple(int(rng.integers(0, g.shape[k])) if per[k] else 0 for k in range(n))
    self.refl = tuple(bool(x) for x in rng.random(n) < .5) if reflect else (False,) * n
    self.perm = tuple(int(x) for x in rng.permutation(n)) if permute else tuple(range(n))
    self.inv = tuple(int(x) for x in np.argsort(self.perm))
    self.a = float(np.exp(rng.uniform(-2, 2))) if scale else 1.
    self.b = float(np.exp(rng.uniform(-2, 2))) if scale else 1.
    self.m = float(np.exp(rng.uniform(-2, 2))) if scale else 1.
    self.q = 1.  # the unit of an advected scalar
    if wide:  # laboratory to planetary units
      self.q = float(10. ** rng.uniform(-10, 10))
      self.a, self.b, self.m = (float(10. ** x) for x in rng.uniform(-7, 7, 3))
    self.o = tuple(float(x) * self.a for x in rng.uniform(-3, 3, n)) if origin else (0.,) * n
    sgn = round(np.linalg.det(np.eye(n)[list(self.perm)]))
    self.det = sgn * (-1) ** sum(self.refl)
    d = []
    for k in range(n):
      lo, hi = g.domain[k]
      if self.refl[k]: lo, hi = -hi, -lo
      d.append((lo * self.a + self.o[k], hi * self.a + self.o[k]))
    self.grid = G.Grid(tuple(g.shape[k] for k in self.perm), domain=tuple(d[k] for k in self.perm))

  def __str__(self):
    return f'shift={self.shift} reflect={self.refl} permute={self.perm} L*{self.a:.3g} T*{self.b:.3g} M*{self.m:.3g} Q*{self.q:.3g}'

  def unit(self, dims): return self.a ** dims[0] * self.b ** dims[1] * self.m ** dims[2] * (self.q ** dims[3] if len(dims) > 3 else 1.)

  def sign(self, par, pseudo=False):
    s = 1
    for k in par: s *= -1 if self.refl[k] else 1
    return s * (self.det if pseudo else 1)

  def bc(self, bc, s, unit):
    """Boundary condition of a transformed field with overall sign s."""
    n = self.g.ndim; T = []; V = []
    for k in range(n):
      t = list(bc.types[k]); v = [None if x is None else x for x in bc.bc_values[k]]
      for q in (0, 1):
        if v[q] is None or t[q] == P: continue
        v[q] = v[q] * s * unit
        if t[q] == N: v[q] = v[q] / self.a * (-1 if self.refl[k] else 1)
      if self.refl[k]: t, v = t[::-1], v[::-1]
      T.append(tuple(t)); V.append(tuple(v))
    T = tuple(T[k] for k in self.perm); V = tuple(V[k] for k in self.perm)
    if isinstance(bc, B.HomogeneousBoundaryConditions): return B.HomogeneousBoundaryConditions(T)
    return B.ConstantBoundaryConditions(T, V)

  def offset(self, off):
    """Offset with integer axes kept (periodic) - see data()."""
    return tuple(off[k] for k in self.perm)

  def data(self, d, off, bc, s):
    """Transformed samples; edge samples on walls come from the boundary value."""
    d = np.asarray(d, float) * s
    for k in range(self.g.ndim):
      n = self.g.shape[k]
      if self.shift[k]: d = np.roll(d, self.shift[k], k)
      if self.refl[k]:
        o2 = int(round(2 * off[k]))
        if self.per[k]:
          d = np.take(d, [(n - j - o2) % n for j in range(n)], axis=k)
        elif o2 % 2: # centred samples
          d = np.flip(d, k)
        else:  # positions 1..n; the new position n is the old lower wall
          assert o2 == 2
          e = np.flip(d, k)  # old positions n..1 -> new positions 0..n-1
          e = np.roll(e, -1, k)
          idx = [slice(None)] * d.ndim; idx[k] = n - 1
          e[tuple(idx)] = bc.bc_values[k][0] * s
          d = e
    return np.transpose(d, self.perm)

  def var(self, u, par=(), dims=(0, 0, 0), pseudo=False):
    s = self.sign(par, pseudo); f = self.unit(dims)
    return gen.var(self.data(u.data, u.offset, u.bc, s) * f, self.offset(u.offset), self.grid, self.bc(u.bc, s, f))

  def vec(self, v, dims=(1, -1, 0)):
    return tuple(self.var(v[k], (k,), dims) for k in self.perm)


def positions(o, n): return np.arange(n) + o


def compare(rec, mon, S, got, want, par=(), dims=(0, 0, 0), pseudo=False, tol=1e-10, scale=None, det='', mask=None):
  """`got` (on transformed inputs) must be the transform of `want`, sample by sample."""
  s = S.sign(par, pseudo); f = S.unit(dims); n = S.g.ndim
  w = np.asarray(want.data, float) * s * f
  off = list(want.offset)
  full = w
  d = np.asarray(got.data, float)
  rec.ok('results live on the transformed grid', core.grid_key(got.grid) == core.grid_key(S.grid), lambda: f'{det}: {got.grid}')
  # to the frame of the transformed axes
  goff = [got.offset[S.inv[k]] for k in range(n)]
  d = np.transpose(d, S.inv)
  ok = True
  for k in range(n):
    N_ = S.g.shape[k]
    if S.per[k]:
      # location of sample i of w after the transform, in cells of the new frame
      x = positions(off[k], w.shape[k]) + S.shift[k]
      if S.refl[k]: x = N_ - x
      y = positions(goff[k], d.shape[k])
      fr = (x[0] - y[0]) - round(x[0] - y[0])
      if abs(fr) > 1e-6 or w.shape[k] != d.shape[k]: ok = False; break
      pos = {int(round(v - y[0])) % N_: i for i, v in enumerate(x)}
      w = np.take(w, [pos[i] for i in range(N_)], axis=k)
      full = np.take(full, [pos[i] for i in range(N_)], axis=k)
    else:
      x = positions(off[k], w.shape[k])
      if S.refl[k]: x = N_ - x
      y = positions(goff[k], d.shape[k])
      fr = (x[0] - y[0]) - round(x[0] - y[0])
      if abs(fr) > 1e-6: ok = False; break
      iw = {int(round(v - goff[k])): i for i, v in enumerate(x)}
      common = [i for i in range(d.shape[k]) if i in iw]
      if len(common) < N_ - 2: ok = False; break
      w = np.take(w, [iw[i] for i in common], axis=k); d = np.take(d, common, axis=k)
  if not rec.ok('results live at the transformed location', ok, lambda: f'{det}: offset {got.offset} for {want.offset} under {S}'): return
  sc = (scale * f) if scale is not None else max(np.abs(np.asarray(want.data)).max() * f, 1e-300)
  rec.close(mon, d, w, tol=tol, scale=sc, detail=f'{det} under {S}')


def cmp_bc(rec, S, got, want, par, dims, det):
  s = S.sign(par); f = S.unit(dims)
  e = S.bc(want.bc, s, f); a = got.bc
  def ok():
    for k in range(S.g.ndim):
      if tuple(a.types[k]) != tuple(e.types[k]): return False
      for q in (0, 1):
        if e.types[k][q] != P and abs((a.bc_values[k][q] or 0) - (e.bc_values[k][q] or 0)) > 1e-9 * (1 + abs(e.bc_values[k][q] or 0)): return False
    return True
  rec.ok('boundary conditions transform with the field', ok(), lambda: f'{det}: {a} expected {e} under {S}')


def setup(rng, rec, name, walls=False, vel=True, vkinds=('normal', 'spikes', 'steps'), lower=True, wide=False, **kw):
  g = gen.grid(rng, shp=gen.pick(rng, SHP), lower=lower) if not walls else gen.mild_grid(rng, shp=gen.pick(rng, SHP))
  n = g.ndim
  w = [False] * n
  if walls:
    w = [bool(x) for x in rng.random(n) < .6]
    if not any(w): w[int(rng.integers(n))] = True
  per = tuple(not x for x in w)
  if wide: wide = bool(rng.random() < .5)
  S = Sym(rng, g, per, wide=wide, **kw)
  rec.case(name, g.shape, per, wide, S.refl, S.perm, S.shift, sample={'op': name, 'grid': str(g), 'symmetry': str(S)})
  if not vel: return g, S, per
  if walls:
    bcs = gen.wall_velocity_bc(rng, n, tuple(w), tangential=False)
    v = tuple(gen.variable(rng, g, o, b, 'normal') for o, b in zip(g.cell_faces, bcs))
  else:
    v = gen.periodic_velocity(rng, g, gen.pick(rng, vkinds))
  return g, S, per, v


def swap(S, k, kind):
  """One-sided operators exchange under reflection of their axis."""
  return {'f': 'b', 'b': 'f'}.get(kind, kind) if S.refl[k] else kind


DIFF = {'f': fd.forward_difference, 'b': fd.backward_difference, 'c': fd.central_difference}


def suite_differences(rng, rec, i):
  g, S, per, v = setup(rng, rec, 'differences', wide=True); n = g.ndim
  pb = B.periodic_boundary_conditions(n)
  c = gen.var(gen.array(rng, g.shape), gen.admissible_offset(rng, pb.types), g, pb)
  det = f'{g.shape} offset {c.offset}'
  C = S.var(c, (), (0, 0, 0, 1)); V = S.vec(v)
  mon = 'differences commute with grid symmetries'
  m = np.abs(np.asarray(c.data)).max() + 1e-30
  for k in range(n):
    for kind in 'fbc':
      compare(rec, mon, S, DIFF[swap(S, k, kind)](C, S.inv[k]), DIFF[kind](c, k), (k,), (-1, 0, 0, 1), scale=m / g.step[k], det=f'{kind}{k} {det}')
  for kind in 'fbc':  # all axes at once
    a, b = DIFF[kind](C), DIFF[kind](c)
    for k in range(n):
      if swap(S, k, kind) == kind: compare(rec, mon, S, a[S.inv[k]], b[k], (k,), (-1, 0, 0, 1), scale=m / g.step[k], det=f'{kind} all {det}')
  compare(rec, 'the Laplacian commutes with grid symmetries', S, fd.laplacian(C), fd.laplacian(c), (), (-2, 0, 0, 1), scale=m / min(g.step) ** 2, det=det)
  vm = max(np.abs(np.asarray(u.data)).max() for u in v) / min(g.step) + 1e-30
  mon = 'divergence, gradient and curl commute with grid symmetries'
  compare(rec, mon, S, fd.divergence(V), fd.divergence(v), (), (0, -1, 0), scale=vm, det=f'divergence {det}')
  ga, gb = fd.gradient_tensor(V), fd.gradient_tensor(v)
  # first index differentiates, second selects the component
  order = [(a, b) for a in range(n) for b in range(n)]
  for a, b in order:
    compare(rec, mon, S, ga[S.inv[a], S.inv[b]], gb[a, b], (a, b), (0, -1, 0), scale=vm, det=f'gradient [{a},{b}] {det}')
  if n == 2:
    compare(rec, mon, S, fd.curl_2d(V), fd.curl_2d(v), (), (0, -1, 0), pseudo=True, scale=vm, det=f'curl {det}')
  else:
    A, b = fd.curl_3d(V), fd.curl_3d(v)
    for k in range(3):
      compare(rec, mon, S, A[S.inv[k]], b[k], (k,), (0, -1, 0), pseudo=True, scale=vm, det=f'curl[{k}] {det}')
  # collocated
  w = gen.periodic_velocity(rng, g, 'normal', collocated=True); W = S.vec(w)
  compare(rec, mon, S, fd.centered_divergence(W), fd.centered_divergence(w), (), (0, -1, 0), scale=10 / min(g.step), det=det)
  compare(rec, 'the Laplacian commutes with grid symmetries', S, cdf.diffuse(W[0], .3), cdf.diffuse(w[S.perm[0]], .3), (S.perm[0],), (-1, -1, 0), scale=10 / min(g.step) ** 2, det=det)


def suite_wall_fields(rng, rec, i):
  """Differences and centred interpolation of cell-centred fields next to walls, with boundary values."""
  g, S, per = setup(rng, rec, 'wall_fields', walls=True, vel=False, wide=True); n = g.ndim
  T = []; Vv = []
  for k in range(n):
    if per[k]: T.append((P, P)); Vv.append((None, None))
    else:
      T.append(tuple(gen.pick(rng, [Dd, N]) for _ in range(2))); Vv.append(tuple(float(np.round(x, 2)) for x in rng.normal(size=2)))
  bc = B.ConstantBoundaryConditions(tuple(T), tuple(Vv))
  c = gen.var(gen.array(rng, g.shape, 'normal'), g.cell_center, g, bc)
  C = S.var(c, (), (0, 0, 0, 1)); det = f'{g.shape} {T} {Vv}'
  m = 8 / min(g.step)
  for k in range(n):
    for kind in 'fbc':
      compare(rec, 'differences at walls commute with grid symmetries', S, DIFF[swap(S, k, kind)](C, S.inv[k]), DIFF[kind](c, k), (k,), (-1, 0, 0, 1), scale=m, det=f'{kind}{k} {det}')
  compare(rec, 'the Laplacian at walls commutes with grid symmetries', S, fd.laplacian(C), fd.laplacian(c), (), (-2, 0, 0, 1), scale=m / min(g.step), det=det)
  for k in range(n):
    o = tuple(1. if a == k else .5 for a in range(n))
    A = ip.linear(C, S.offset(o)); b = ip.linear(c, o)
    compare(rec, 'interpolation at walls commutes with grid symmetries', S, A, b, (), (0, 0, 0, 1), scale=5, det=det)


def suite_interpolation(rng, rec, i):
  g, S, per, v = setup(rng, rec, 'interpolation', vkinds=('normal',), wide=True)  # a one-sided value is undefined at rest

  n = g.ndim; V = S.vec(v)
  pb = B.periodic_boundary_conditions(n)
  c = gen.var(gen.array(rng, g.shape), gen.admissible_offset(rng, pb.types), g, pb); C = S.var(c, (), (0, 0, 0, 1))
  det = f'{g.shape} {c.offset}'; m = np.abs(np.asarray(c.data)).max() + 1e-30
  mon = 'interpolation commutes with grid symmetries'
  to = tuple(o + float(rng.choice([-.5, 0, .5, 1.])) for o in c.offset)
  back = lambda o: tuple((1 - (o[k] - c.offset[k]) + c.offset[k] - 1 if S.refl[k] else o[k]) for k in range(n))
  compare(rec, mon, S, ip.linear(C, S.offset(back(to)), V, .1 * S.b), ip.linear(c, to, v, .1), (), (0, 0, 0, 1), scale=m, det=f'linear to {to} {det}')
  # to the faces, where the velocity lives
  c = gen.var(gen.array(rng, g.shape), g.cell_center, g, pb); C = S.var(c, (), (0, 0, 0, 1)); m = np.abs(np.asarray(c.data)).max() + 1e-30
  vm = [np.abs(np.asarray(u.data)).max() + 1e-12 for u in v]
  dt = .5 * min(h / x for h, x in zip(g.step, vm)); Dt = dt * S.b
  k = int(rng.integers(n)); to = g.cell_faces[k]
  To = S.grid.cell_faces[S.inv[k]]
  vl = ip.apply_tvd_limiter(ip.lax_wendroff, ip.van_leer_limiter)
  for nm, f in [('linear', ip.linear), ('upwind', ip.upwind), ('lax_wendroff', ip.lax_wendroff), ('van_leer', vl)]:
    compare(rec, mon, S, f(C, To, V, Dt), f(c, to, v, dt), (), (0, 0, 0, 1), tol=1e-9, scale=m, det=f'{nm} to face {k} {det}')


def suite_advection(rng, rec, i):
  g, S, per, v = setup(rng, rec, 'advection', wide=True); n = g.ndim; V = S.vec(v)
  pb = B.periodic_boundary_conditions(n)
  c = gen.var(gen.array(rng, g.shape), g.cell_center, g, pb); C = S.var(c, (), (0, 0, 0, 1))
  vm = [np.abs(np.asarray(u.data)).max() + 1e-12 for u in v]
  dt = .4 / sum(x / h for x, h in zip(vm, g.step)); Dt = dt * S.b
  m = (np.abs(np.asarray(c.data)).max() + 1e-30) / dt
  det = f'{g.shape}'
  mon = 'advection commutes with grid symmetries'
  for nm, f in [('linear', ad.advect_linear), ('upwind', ad.advect_upwind), ('van_leer', ad.advect_van_leer), ('limiters', ad.advect_van_leer_using_limiters)]:
    compare(rec, mon, S, f(C, V, Dt), f(c, v, dt), (), (0, -1, 0, 1), tol=1e-9, scale=m, det=f'{nm} {det}')
    k = int(rng.integers(n))  # a velocity component
    compare(rec, mon, S, f(V[S.inv[k]], V, Dt), f(v[k], v, dt), (k,), (1, -2, 0), tol=1e-9, scale=max(vm) / dt, det=f'{nm} of velocity {det}')
  a, b = ad.convect_linear(V), ad.convect_linear(v)
  for k in range(n):
    compare(rec, mon, S, a[S.inv[k]], b[k], (k,), (1, -2, 0), tol=1e-9, scale=max(vm) / dt, det=f'convect_linear {det}')
  w = gen.periodic_velocity(rng, g, 'normal', collocated=True); W = S.vec(w)
  a, b = cad.convect_linear(W), cad.convect_linear(w)
  for k in range(n):
    compare(rec, mon, S, a[S.inv[k]], b[k], (k,), (1, -2, 0), tol=1e-9, scale=30 / min(g.step), det=f'collocated {det}')


def suite_semilagrangian(rng, rec, i):
  g, S, per, v = setup(rng, rec, 'semilagrangian', lower=False, origin=False, wide=True)
  S.grid = G.Grid(S.grid.shape, domain=tuple((0., hi - lo) for lo, hi in S.grid.domain))  # domains must start at zero
  c = gen.var(gen.array(rng, g.shape), g.cell_center, g, v[0].bc); C = S.var(c, (), (0, 0, 0, 1)); V = S.vec(v)
  vm = [np.abs(np.asarray(u.data)).max() + 1e-12 for u in v]
  dt = float(rng.uniform(.2, 3)) / sum(x / h for x, h in zip(vm, g.step))
  compare(rec, 'advection commutes with grid symmetries', S, ad.advect_step_semilagrangian(C, V, dt * S.b), ad.advect_step_semilagrangian(c, v, dt), (), (0, 0, 0, 1),
          tol=1e-8, scale=np.abs(np.asarray(c.data)).max() + 1e-30, det=f'semi-Lagrangian {g.shape}')


def suite_wall_advection(rng, rec, i):
  g, S, per, v = setup(rng, rec, 'wall_advection', walls=True, wide=True); n = g.ndim; V = S.vec(v)
  T = tuple((P, P) if per[k] else tuple(gen.pick(rng, [Dd, N]) for _ in range(2)) for k in range(n))
  Vv = tuple((None, None) if per[k] else tuple(float(np.round(x, 2)) if t == Dd else 0. for x, t in zip(rng.normal(size=2), T[k])) for k in range(n))
  bc = B.ConstantBoundaryConditions(T, Vv)
  c = gen.var(gen.array(rng, g.shape, 'normal'), g.cell_center, g, bc); C = S.var(c, (), (0, 0, 0, 1))
  vm = [np.abs(np.asarray(u.data)).max() + 1e-12 for u in v]
  dt = .4 / sum(x / h for x, h in zip(vm, g.step)); Dt = dt * S.b
  det = f'{g.shape} {T} {Vv}'
  compare(rec, 'advection at walls commutes with grid symmetries', S, ad.advect_van_leer(C, V, Dt), ad.advect_van_leer(c, v, dt), (), (0, -1, 0, 1), tol=1e-9, scale=5 / dt, det=det)


def suite_solves(rng, rec, i):
  walls = bool(i % 2)
  g, S, per, v = setup(rng, rec, 'solves', walls=walls); n = g.ndim; V = S.vec(v)
  det = f'{g.shape} walls={[not p for p in per]}'
  vm = max(np.abs(np.asarray(u.data)).max() for u in v) + 1e-12
  a, b = pr.projection(V), pr.projection(v)
  for k in range(n):
    compare(rec, 'projection commutes with grid symmetries', S, a[S.inv[k]], b[k], (k,), (1, -1, 0), tol=1e-9, scale=vm, det=det)
    cmp_bc(rec, S, a[S.inv[k]], b[k], (k,), (1, -1, 0), det)
  dom = max(h * s for h, s in zip(g.step, g.shape))
  A, b = pr.solve_fast_diag(V), pr.solve_fast_diag(v)
  compare(rec, 'the pressure solve commutes with grid symmetries', S, A, b, (), (2, -1, 0), tol=1e-9, scale=vm * dom ** 2 / min(g.step), det=det)
  nu = float(rng.uniform(.1, 2)) * min(g.step) ** 2; dt = .7
  a = diffusion.solve_fast_diag(V, nu * S.a ** 2 / S.b, dt * S.b); b = diffusion.solve_fast_diag(v, nu, dt)
  for k in range(n):
    compare(rec, 'implicit diffusion commutes with grid symmetries', S, a[S.inv[k]], b[k], (k,), (1, -1, 0), tol=1e-9, scale=vm, det=det)
    cmp_bc(rec, S, a[S.inv[k]], b[k], (k,), (1, -1, 0), det)
  if i % 4 == 0:
    cg = functools.partial(pr.solve_cg, rtol=1e-12, atol=1e-14)
    a, b = pr.projection(V, cg), pr.projection(v, cg)
    for k in range(n):
      compare(rec, 'projection commutes with grid symmetries', S, a[S.inv[k]], b[k], (k,), (1, -1, 0), tol=1e-6, scale=vm, det=f'cg {det}')
    a = diffusion.solve_cg(V, nu * S.a ** 2 / S.b, dt * S.b, rtol=1e-12, atol=1e-14); b = diffusion.solve_cg(v, nu, dt, rtol=1e-12, atol=1e-14)
    for k in range(n):
      compare(rec, 'implicit diffusion commutes with grid symmetries', S, a[S.inv[k]], b[k], (k,), (1, -1, 0), tol=1e-7, scale=vm, det=f'cg {det}')


def suite_steps(rng, rec, i):
  """Full solver steps: explicit, implicit, walls, LES, collocated, with linear and constant-vector forcing."""
  kind = ['explicit', 'implicit', 'walls', 'les', 'collocated'][i % 5]
  g, S, per, v = setup(rng, rec, 'step ' + kind, walls=kind == 'walls'); n = g.ndim
  if kind == 'collocated': v = gen.periodic_velocity(rng, g, 'normal', collocated=True)
  V = S.vec(v)
  nu = float(gen.pick(rng, [.02, .2])) * min(g.step) ** 2; rho = float(gen.pick(rng, [1., .5, 3.]))
  dt = workloads.safe_dt(v, g, nu / rho, .3)
  conv = gen.pick(rng, list(workloads.CONVECT)) if kind in ('explicit', 'implicit') else 'van_leer'
  st = gen.pick(rng, list(workloads.STEPPERS)) if kind in ('explicit', 'walls') else 'euler'
  fk = gen.pick(rng, ['none', 'linear', 'const', 'filtered'])
  if fk == 'filtered' and (kind in ('walls', 'collocated') or g.ndim == 3): fk = 'linear'
  coef = float(rng.normal()); con = rng.normal(size=n)
  det = f'{kind} {g.shape} {conv} {st} {fk} rho={rho}'
  def build(gr, T):
    f = None
    q = 1. if T is None else T.m * T.a ** -3  # density units
    b_ = 1. if T is None else T.b; a_ = 1. if T is None else T.a
    if fk == 'linear': f = fo.linear_forcing(gr, coef * q / b_)
    elif fk == 'filtered':
      L = min(h * s for h, s in zip(g.step, g.shape))
      f = fo.filtered_linear_forcing(0 / a_, 2 * np.pi * 2.2 / L / a_, coef * q / b_, gr)
    elif fk == 'const':
      vals = con if T is None else [con[T.perm[k]] * (-1 if T.refl[T.perm[k]] else 1) * q * a_ / b_ ** 2 for k in range(n)]
      f = lambda w: tuple(G.GridArray(float(c) * jnp.ones_like(u.data), u.offset, u.grid) for c, u in zip(vals, w))
    kw = dict(density=rho * q, viscosity=nu * q * a_ ** 2 / b_, dt=dt * b_, grid=gr)
    if kind == 'les': return sg.explicit_smagorinsky_navier_stokes(cs=.15, forcing=f, convect=ad.convect_linear, **kw)
    if f is not None: kw['forcing'] = f
    if kind == 'collocated':
      return ceq.semi_implicit_navier_stokes(pressure_solve=functools.partial(cpr.solve_cg, rtol=1e-13, atol=1e-14), **kw)
    cf = workloads.CONVECT[conv](dt * b_)
    if cf is not None: kw['convect'] = cf
    if kind == 'implicit': return eqs.implicit_diffusion_navier_stokes(**kw)
    return eqs.semi_implicit_navier_stokes(time_stepper=workloads.STEPPERS[st], **kw)
  a, b = build(S.grid, S)(V), build(g, None)(v)
  vm = max(np.abs(np.asarray(u.data)).max() for u in v) + max(np.abs(con)) * dt + 1e-12
  for k in range(n):
    compare(rec, 'solver steps commute with grid symmetries', S, a[S.inv[k]], b[k], (k,), (1, -1, 0), tol=1e-6 if kind == 'collocated' else 1e-8, scale=vm, det=det)
    cmp_bc(rec, S, a[S.inv[k]], b[k], (k,), (1, -1, 0), det)


def suite_forcings(rng, rec, i):
  """Body forces that name a direction follow it; the others commute with everything."""
  g = gen.grid(rng, shp=gen.pick(rng, SHP)); n = g.ndim
  v = gen.periodic_velocity(rng, g, 'normal')
  rec.case('forcings', g.shape, i % 2)
  # exchanging x and y exchanges the roles in the Kolmogorov force
  p = (1, 0) + tuple(range(2, n))
  S = Sym(rng, g, (True,) * n, scale=False, reflect=False, permute=False, origin=False)
  S.shift = (0,) * n; S.perm = p; S.inv = p; S.det = -1
  S.grid = G.Grid(tuple(g.shape[k] for k in p), domain=tuple(g.domain[k] for k in p))
  k, s = int(rng.integers(1, 5)), float(rng.normal())
  V = S.vec(v)
  a = fo.kolmogorov_forcing(S.grid, scale=s, k=k, swap_xy=True)(V); b = fo.kolmogorov_forcing(g, scale=s, k=k)(v)
  for q in range(n):
    compare(rec, 'body forces commute with grid symmetries', S, a[S.inv[q]], b[q], (q,), scale=abs(s), tol=1e-10, det=f'kolmogorov {g.shape}')
  # Kolmogorov flow is invariant along its own direction
  T = Sym(rng, g, (True,) * n, scale=False, reflect=False, permute=False, origin=False)
  T.shift = tuple(0 if q == 1 else T.shift[q] for q in range(n))
  a = fo.kolmogorov_forcing(g, scale=s, k=k)(T.vec(v))
  for q in range(n):
    compare(rec, 'body forces commute with grid symmetries', T, a[q], b[q], (q,), scale=abs(s), tol=1e-10, det=f'kolmogorov translated {g.shape}')
  if n == 2:
    lin = Sym(rng, g, (True,) * n)
    L = min(h * m for h, m in zip(g.step, g.shape)); up = 2 * np.pi * 2.3 / L
    a = fo.filtered_linear_forcing(0., up / lin.a, s, lin.grid)(lin.vec(v)); b = fo.filtered_linear_forcing(0., up, s, g)(v)
    for q in range(n):
      compare(rec, 'body forces commute with grid symmetries', lin, a[lin.inv[q]], b[q], (q,), (1, -1, 0), scale=5 * abs(s), tol=1e-9, det=f'filtered {g.shape}')


def band(rng, shp):
  """Random real field inside the resolved band of the spectral solver."""
  f = np.fft.rfft2(rng.standard_normal(shp))
  n, m = shp
  r = np.abs(np.fft.fftfreq(n) * n) <= (n - 1) // 3; c = np.arange(m // 2 + 1) <= (m - 1) // 3
  return np.fft.irfft2(f * r[:, None] * c[None, :], s=shp)


def suite_spectral(rng, rec, i):
  shp = gen.pick(rng, [(8, 12), (12, 8), (16, 10), (10, 10)])
  h = rng.uniform(.3, 1, 2); g = G.Grid(shp, domain=tuple((0., float(a * b)) for a, b in zip(h, shp)))
  smooth = bool(i % 3)
  # without the filter products alias into the unpaired highest mode, which has no mirror image
  S = Sym(rng, g, (True, True), origin=False, reflect=smooth, permute=smooth)
  # the spectral grid starts at zero
  S.grid = G.Grid(S.grid.shape, domain=tuple((0., s * e) for s, e in zip(S.grid.shape, S.grid.step)))
  pb = B.periodic_boundary_conditions(2)
  w = gen.var(band(rng, shp), (0., 0.), g, pb)
  nu = float(rng.uniform(0, .05)) * min(g.step) ** 2; drag = float(rng.uniform(0, .3))
  dt = .02 * min(g.step); steps = int(rng.integers(1, 4))
  stp = gen.pick(rng, [sts.crank_nicolson_rk4, sts.crank_nicolson_rk2, sts.backward_forward_euler, sts.imex_rk_sil3])
  rec.case('spectral', shp, S.refl, S.perm, smooth, stp.__name__)
  def run(w, gr, a, b):
    f = stp(seq.NavierStokes2D(nu * a ** 2 / b, gr, drag=drag / b, smooth=smooth), dt * b)
    x = jnp.fft.rfft2(w.data)
    for _ in range(steps): x = f(x)
    return gen.arr(np.fft.irfft2(np.asarray(x), s=gr.shape), (0., 0.), gr)
  W = S.var(w, (), (0, -1, 0), pseudo=True)
  compare(rec, 'spectral steps commute with grid symmetries', S, run(W, S.grid, S.a, S.b), run(w, g, 1, 1), (), (0, -1, 0), pseudo=True, tol=1e-9,
          scale=3., det=f'{shp} smooth={smooth} {stp.__name__}')
  # forced flow: translation along the direction of the force
  T = Sym(rng, g, (True, True), scale=False, reflect=False, permute=False, origin=False)
  T.shift = (T.shift[0], 0)
  def runf(w):
    f = stp(seq.ForcedNavierStokes2D(nu, g, smooth=smooth), dt)
    x = jnp.fft.rfft2(w.data)
    for _ in range(steps): x = f(x)
    return gen.arr(np.fft.irfft2(np.asarray(x), s=shp), (0., 0.), g)
  W = T.var(w, (), (0, 0, 0))
  compare(rec, 'spectral steps commute with grid symmetries', T, runf(W), runf(w), (), tol=1e-9, scale=3., det=f'forced {shp} smooth={smooth} {stp.__name__}')


def suite_spectral1(rng, rec, i):
  n = gen.pick(rng, [12, 16, 24, 32]); g = G.Grid((n,), domain=((0., float(n * rng.uniform(.3, 1.))),))
  S = Sym(rng, g, (True,), scale=False, origin=False); S.grid = g
  f = np.fft.rfft(rng.standard_normal(n)); f[(n - 1) // 3 + 1:] = 0
  if i % 2: f[0] = 0
  u = gen.var(np.fft.irfft(f, n), (0.,), g, B.periodic_boundary_conditions(1))
  kind = ['ks', 'nls'][i % 2]; smooth = bool(rng.integers(2)); dt = .01 * g.step[0] ** 2; steps = int(rng.integers(1, 4))
  rec.case('spectral1', n, kind, smooth, S.refl)
  det = f'{kind} {n} smooth={smooth}'
  if kind == 'ks':
    # the 3/2 rule leaves the square of the Nyquist mode aliased onto itself, which only even shifts preserve
    S.shift = (S.shift[0] // 2 * 2,)
    if not smooth: S.refl = (False,); S.det = 1
    def run(u):
      s = sts.crank_nicolson_rk4(seq.KuramotoSivashinsky(g, smooth), dt); x = jnp.fft.rfft(u.data)
      for _ in range(steps): x = s(x)
      return gen.arr(np.fft.irfft(np.asarray(x), n), (0.,), g)
    compare(rec, 'spectral steps commute with grid symmetries', S, run(S.var(u, (0,))), run(u), (0,), tol=1e-9, scale=3., det=det)
  else:  # translation, phase and parabolic scaling
    q = np.asarray(u.data) + 1j * rng.standard_normal(n); a = float(np.exp(rng.uniform(-1, 1))); ph = np.exp(1j * rng.uniform(0, 6))
    def run(q, gr, dt):
      s = sts.crank_nicolson_rk4(seq.NonlinearSchrodinger(gr, smooth), dt); x = jnp.fft.fft(jnp.asarray(q))
      for _ in range(steps): x = s(x)
      return np.fft.ifft(np.asarray(x))
    z = int(rng.integers(n))
    got = run(np.roll(q, z) * ph / a, G.Grid((n,), domain=((0., g.domain[0][1] * a),)), dt * a * a)
    rec.close('spectral steps commute with grid symmetries', got * a, np.roll(run(q, g, dt), z) * ph, tol=1e-9, scale=5., detail=det)


SUITES = {
    'differences': (suite_differences, 24, 2500),
    'wall_fields': (suite_wall_fields, 24, 2500),
    'interpolation': (suite_interpolation, 24, 2500),
    'advection': (suite_advection, 16, 1500),
    'semilagrangian': (suite_semilagrangian, 12, 800),
    'wall_advection': (suite_wall_advection, 16, 1500),
    'solves': (suite_solves, 20, 1200),
    'steps': (suite_steps, 20, 1500),
    'forcings': (suite_forcings, 12, 600),
    'spectral': (suite_spectral, 12, 500),
    'spectral1': (suite_spectral1, 12, 500),
}
REQUIRED = ['differences commute with grid symmetries', 'the Laplacian commutes with grid symmetries',
            'divergence, gradient and curl commute with grid symmetries', 'differences at walls commute with grid symmetries',
            'interpolation commutes with grid symmetries', 'advection commutes with grid symmetries',
            'advection at walls commutes with grid symmetries', 'projection commutes with grid symmetries',
            'implicit diffusion commutes with grid symmetries', 'solver steps commute with grid symmetries',
            'body forces commute with grid symmetries', 'spectral steps commute with grid symmetries']
